"""Rewrite rules that apply to every extracted function: constructs which Verus doesn't accept,
written out in terms of ones it does. Each is (pattern, replacement, reason)."""

ITER = "the iterator adaptor is written out as the loop it performs"
WRAP = "the unchecked access is done by a wrapper with an assumed contract"
ASSERT = "the run-time assertion becomes a proof obligation (it can't fail)"

GLOBAL = [
    ("$rx.iter().all(|&$iy| $e)", "{ let mut all_ = true; let mut i_: usize = 0; while all_ && i_ < $rx.len() { let $iy = $rx[i_]; all_ = $e; i_ += 1; } all_ }", ITER),
    ("$rx.iter().zip($ry).all(|(&$iu, &$iv)| $e)", "{ let mut all_ = true; let mut i_: usize = 0; while all_ && i_ < $rx.len() && i_ < $ry.len() { let $iu = $rx[i_]; let $iv = $ry[i_]; all_ = $e; i_ += 1; } all_ }", ITER),
    ("(0..$n).all(|$iy| unsafe { $e })", "{ let mut all_ = true; let n_: usize = $n; let mut $iy: usize = 0; while all_ && $iy < n_ { all_ = $e; $iy += 1; } all_ }", ITER),
    ("$rx.iter_mut().for_each(|$iy| *$iy = $e)", "{ let mut i_: usize = 0; while i_ < $rx.len() { $rx[i_] = $e; i_ += 1; } }", ITER),
    ("$rx.iter().zip($ry.iter_mut()).for_each(|($iu, $iv)| *$iv = *$iu)", "{ let mut i_: usize = 0; while i_ < $rx.len() && i_ < $ry.len() { $ry[i_] = $rx[i_]; i_ += 1; } }", ITER),
    ("$rx.ones().all(|$iy| $e)", "{ let mut all_ = true; let mut more_ = true; let mut it_ = $rx.ones(); while all_ && more_ { match it_.next() { Some($iy) => { all_ = $e; } None => { more_ = false; } } } all_ }", ITER),
    ("for $ix in $e.ones() {", "let set_ = &$e; let mut it_ = set_.ones(); while let Some($ix) = it_.next() {", "a `for` loop over the set bits is written out as calls of `next`"),
    ("unsafe { $rx.get_unchecked_mut(range) }", "get_blocks_unchecked_mut(&mut *$rx, range)", WRAP),
    ("unsafe { $rx.get_unchecked(range) }", "get_blocks_unchecked(&*$rx, range)", WRAP),
    ("unsafe { $rx.get_unchecked_mut($i) }", "get_block_unchecked_mut(&mut *$rx, $i)", WRAP),
    ("unsafe { $rx.get_unchecked($i) }", "get_block_unchecked(&*$rx, $i)", WRAP),
    ("$rx.get_unchecked_mut($i)", "get_block_unchecked_mut(&mut *$rx, $i)", WRAP),
    ("$rx.get_unchecked($i)", "get_block_unchecked(&*$rx, $i)", WRAP),
    ("debug_assert_eq!($x, $y)", "rt_assert($x == $y)", ASSERT),
    ("debug_assert!($x)", "rt_assert($x)", ASSERT),
    ("assert_eq!($x, $y)", "rt_assert($x == $y)", ASSERT),
    ("assert!($x)", "rt_assert($x)", ASSERT),
]
