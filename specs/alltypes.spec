//# all element types, as they are in the sources
@source vimwiki-core/src/lang/elements/mod.rs
@type Page
@type Element
@type InlineBlockElement
@source vimwiki-core/src/lang/elements/blocks/mod.rs
@type BlockElement
@source vimwiki-core/src/lang/elements/blocks/blockquotes.rs
@type Blockquote
@source vimwiki-core/src/lang/elements/blocks/code.rs
@type CodeBlock
@source vimwiki-core/src/lang/elements/blocks/math.rs
@type MathBlock
@source vimwiki-core/src/lang/elements/blocks/definitions.rs
@type DefinitionListValue
@type Term
@type Definition
@type DefinitionBundle
@type TermAndDefinitions
@type DefinitionList
@source vimwiki-core/src/lang/elements/blocks/dividers.rs
@type Divider
@source vimwiki-core/src/lang/elements/blocks/headers.rs
@type Header
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@type ListItemSuffix
@type UnorderedListItemType
@type OrderedListItemType
@type ListItemType
@type ListItemTodoStatus
@type ListItemAttributes
@type ListItem
@source vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@type List
@type ListItemContents
@source vimwiki-core/src/lang/elements/blocks/paragraphs.rs
@type Paragraph
@source vimwiki-core/src/lang/elements/blocks/placeholders.rs
@type Placeholder
@source vimwiki-core/src/lang/elements/blocks/tables.rs
@type CellPos
@type CellSpan
@type ColumnAlign
@type Cell
@type Table
@source vimwiki-core/src/lang/elements/blocks/inline/mod.rs
@type InlineElement
@type InlineElementContainer
@source vimwiki-core/src/lang/elements/blocks/inline/code.rs
@type CodeInline
@source vimwiki-core/src/lang/elements/blocks/inline/math.rs
@type MathInline
@source vimwiki-core/src/lang/elements/blocks/inline/tags.rs
@type Tag
@type Tags
@source vimwiki-core/src/lang/elements/blocks/inline/comments.rs
@type LineComment
@type MultiLineComment
@type Comment
@source vimwiki-core/src/lang/elements/blocks/inline/typefaces.rs
@type Text
@type Keyword
@type DecoratedTextContent
@type DecoratedText
@source vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@type Link
@source vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@type LinkData
@source vimwiki-core/src/lang/elements/blocks/inline/links/description.rs
@type Description
