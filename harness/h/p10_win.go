// Code generated by tools/gen_win.py. DO NOT EDIT.

package h

// P10_Content: every document of winContent serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Content() { checkRoundTrip(winContent()) }

// P10_Tag: every document of winTag serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Tag() { checkRoundTrip(winTag()) }

// P10_EmptyTag: every document of winEmptyTag serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_EmptyTag() { checkRoundTrip(winEmptyTag()) }

// P10_Attrs: every document of winAttrs serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Attrs() { checkRoundTrip(winAttrs()) }

// P10_Value: every document of winValue serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Value() { checkRoundTrip(winValue()) }

// P10_Prolog: every document of winProlog serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Prolog() { checkRoundTrip(winProlog()) }

// P10_Epilog: every document of winEpilog serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Epilog() { checkRoundTrip(winEpilog()) }

// P10_Comment: every document of winComment serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Comment() { checkRoundTrip(winComment()) }

// P10_Bang: every document of winBang serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Bang() { checkRoundTrip(winBang()) }

// P10_PI: every document of winPI serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_PI() { checkRoundTrip(winPI()) }

// P10_PIIn: every document of winPIIn serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_PIIn() { checkRoundTrip(winPIIn()) }

// P10_CDATA: every document of winCDATA serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_CDATA() { checkRoundTrip(winCDATA()) }

// P10_CDOpen: every document of winCDOpen serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_CDOpen() { checkRoundTrip(winCDOpen()) }

// P10_End: every document of winEnd serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_End() { checkRoundTrip(winEnd()) }

// P10_End2: every document of winEnd2 serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_End2() { checkRoundTrip(winEnd2()) }

// P10_Ref: every document of winRef serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Ref() { checkRoundTrip(winRef()) }

// P10_HexRef: every document of winHexRef serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_HexRef() { checkRoundTrip(winHexRef()) }

// P10_Nested: every document of winNested serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Nested() { checkRoundTrip(winNested()) }

// P10_AfterEnd: every document of winAfterEnd serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_AfterEnd() { checkRoundTrip(winAfterEnd()) }

// P10_NS: every document of winNS serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_NS() { checkRoundTrip(winNS()) }

// P10_UTF8: every document of winUTF8 serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8() { checkRoundTrip(winUTF8()) }

// P10_UTF8Name: every document of winUTF8Name serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8Name() { checkRoundTrip(winUTF8Name()) }

// P10_UTF8First: every document of winUTF8First serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8First() { checkRoundTrip(winUTF8First()) }

// P10_UTF8Value: every document of winUTF8Value serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8Value() { checkRoundTrip(winUTF8Value()) }

// P10_UTF8Comment: every document of winUTF8Comment serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8Comment() { checkRoundTrip(winUTF8Comment()) }

// P10_UTF8PI: every document of winUTF8PI serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8PI() { checkRoundTrip(winUTF8PI()) }

// P10_UTF8CDATA: every document of winUTF8CDATA serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_UTF8CDATA() { checkRoundTrip(winUTF8CDATA()) }

// P10_Pad: every document of winPad serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Pad() { checkRoundTrip(winPad()) }

// P10_PadTag: every document of winPadTag serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_PadTag() { checkRoundTrip(winPadTag()) }

// P10_Tokens: every document of winTokens serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Tokens() { checkRoundTrip(winTokens()) }

// P10_PadTokens: every document of winPadTokens serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_PadTokens() { checkRoundTrip(winPadTokens()) }

// P10_Slide: every document of winSlide serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Slide() { checkRoundTrip(winSlide()) }

// P10_DTDSlide: every document of winDTDSlide serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_DTDSlide() { checkRoundTrip(winDTDSlide()) }

// P10_Subset: every document of winSubset serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Subset() { checkRoundTrip(winSubset()) }

// P10_Decl: every document of winDecl serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Decl() { checkRoundTrip(winDecl()) }

// P10_Doctype: every document of winDoctype serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Doctype() { checkRoundTrip(winDoctype()) }

// P10_EntText: every document of winEntText serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_EntText() { checkRoundTrip(winEntText()) }

// P10_EntMarkup: every document of winEntMarkup serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_EntMarkup() { checkRoundTrip(winEntMarkup()) }

// P10_Enc: every document of winEnc serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Enc() { checkRoundTrip(winEnc()) }

// P10_Sizes: every document of winSizes serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Sizes() { checkRoundTrip(winSizes()) }

// P10_Items: every document of winItems serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Items() { checkRoundTrip(winItems()) }

// P10_Docs: every document of winDocs serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Docs() { checkRoundTrip(winDocs()) }

// P10_Scopes: every document of winScopes serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Scopes() { checkRoundTrip(winScopes()) }

// P10_Models: every document of winModels serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Models() { checkRoundTrip(winModels()) }

// P10_URIs: every document of winURIs serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_URIs() { checkRoundTrip(winURIs()) }

// P10_XMLNames: every document of winXMLNames serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_XMLNames() { checkRoundTrip(winXMLNames()) }

// P10_Decls: every document of winDecls serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Decls() { checkRoundTrip(winDecls()) }

// P10_Lists: every document of winLists serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Lists() { checkRoundTrip(winLists()) }

// P10_Late: every document of winLate serialises, if accepted, to a document with the same tree and the same serialisation.
func P10_Late() { checkRoundTrip(winLate()) }
