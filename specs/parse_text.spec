//# mode flags
@include all.spec
@raw
pub open spec fn f_nest() -> bool { true }
pub open spec fn f_text() -> bool { true }
@endraw
