//# mode flags
@trust term_and_definitions
@include all.spec
@raw
pub open spec fn f_nest() -> bool { false }
pub open spec fn f_text() -> bool { false }
@endraw
