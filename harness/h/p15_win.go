// Code generated by tools/gen_win.py. DO NOT EDIT.

package h

// P15_EmptyTag: every document of winEmptyTag gives a handler, with and without a tree builder, the events of the tree.
func P15_EmptyTag() { checkEvents(winEmptyTag()) }

// P15_Prolog: every document of winProlog gives a handler, with and without a tree builder, the events of the tree.
func P15_Prolog() { checkEvents(winProlog()) }

// P15_Epilog: every document of winEpilog gives a handler, with and without a tree builder, the events of the tree.
func P15_Epilog() { checkEvents(winEpilog()) }

// P15_Comment: every document of winComment gives a handler, with and without a tree builder, the events of the tree.
func P15_Comment() { checkEvents(winComment()) }

// P15_Bang: every document of winBang gives a handler, with and without a tree builder, the events of the tree.
func P15_Bang() { checkEvents(winBang()) }

// P15_PI: every document of winPI gives a handler, with and without a tree builder, the events of the tree.
func P15_PI() { checkEvents(winPI()) }

// P15_PIIn: every document of winPIIn gives a handler, with and without a tree builder, the events of the tree.
func P15_PIIn() { checkEvents(winPIIn()) }

// P15_CDATA: every document of winCDATA gives a handler, with and without a tree builder, the events of the tree.
func P15_CDATA() { checkEvents(winCDATA()) }

// P15_CDOpen: every document of winCDOpen gives a handler, with and without a tree builder, the events of the tree.
func P15_CDOpen() { checkEvents(winCDOpen()) }

// P15_End: every document of winEnd gives a handler, with and without a tree builder, the events of the tree.
func P15_End() { checkEvents(winEnd()) }

// P15_End2: every document of winEnd2 gives a handler, with and without a tree builder, the events of the tree.
func P15_End2() { checkEvents(winEnd2()) }

// P15_Ref: every document of winRef gives a handler, with and without a tree builder, the events of the tree.
func P15_Ref() { checkEvents(winRef()) }

// P15_HexRef: every document of winHexRef gives a handler, with and without a tree builder, the events of the tree.
func P15_HexRef() { checkEvents(winHexRef()) }

// P15_Nested: every document of winNested gives a handler, with and without a tree builder, the events of the tree.
func P15_Nested() { checkEvents(winNested()) }

// P15_AfterEnd: every document of winAfterEnd gives a handler, with and without a tree builder, the events of the tree.
func P15_AfterEnd() { checkEvents(winAfterEnd()) }

// P15_NS: every document of winNS gives a handler, with and without a tree builder, the events of the tree.
func P15_NS() { checkEvents(winNS()) }

// P15_UTF8: every document of winUTF8 gives a handler, with and without a tree builder, the events of the tree.
func P15_UTF8() { checkEvents(winUTF8()) }

// P15_Pad: every document of winPad gives a handler, with and without a tree builder, the events of the tree.
func P15_Pad() { checkEvents(winPad()) }

// P15_PadTag: every document of winPadTag gives a handler, with and without a tree builder, the events of the tree.
func P15_PadTag() { checkEvents(winPadTag()) }

// P15_Tokens: every document of winTokens gives a handler, with and without a tree builder, the events of the tree.
func P15_Tokens() { checkEvents(winTokens()) }

// P15_PadTokens: every document of winPadTokens gives a handler, with and without a tree builder, the events of the tree.
func P15_PadTokens() { checkEvents(winPadTokens()) }

// P15_Slide: every document of winSlide gives a handler, with and without a tree builder, the events of the tree.
func P15_Slide() { checkEvents(winSlide()) }

// P15_Sizes: every document of winSizes gives a handler, with and without a tree builder, the events of the tree.
func P15_Sizes() { checkEvents(winSizes()) }

// P15_Items: every document of winItems gives a handler, with and without a tree builder, the events of the tree.
func P15_Items() { checkEvents(winItems()) }

// P15_Docs: every document of winDocs gives a handler, with and without a tree builder, the events of the tree.
func P15_Docs() { checkEvents(winDocs()) }

// P15_Scopes: every document of winScopes gives a handler, with and without a tree builder, the events of the tree.
func P15_Scopes() { checkEvents(winScopes()) }

// P15_Models: every document of winModels gives a handler, with and without a tree builder, the events of the tree.
func P15_Models() { checkEvents(winModels()) }

// P15_URIs: every document of winURIs gives a handler, with and without a tree builder, the events of the tree.
func P15_URIs() { checkEvents(winURIs()) }

// P15_XMLNames: every document of winXMLNames gives a handler, with and without a tree builder, the events of the tree.
func P15_XMLNames() { checkEvents(winXMLNames()) }
