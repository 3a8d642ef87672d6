fn main(){}
