@include parsers.spec
@include elements.spec
@include inline.spec
@include links.spec
@include blocks.spec
