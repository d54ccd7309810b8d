// Code generated by tools/gen_win.py. DO NOT EDIT.

package h

// P02_Content: every document of winContent is rejected if the reference reader finds it not well-formed.
func P02_Content() { checkReject(winContent()) }

// P02_Tag: every document of winTag is rejected if the reference reader finds it not well-formed.
func P02_Tag() { checkReject(winTag()) }

// P02_EmptyTag: every document of winEmptyTag is rejected if the reference reader finds it not well-formed.
func P02_EmptyTag() { checkReject(winEmptyTag()) }

// P02_Attrs: every document of winAttrs is rejected if the reference reader finds it not well-formed.
func P02_Attrs() { checkReject(winAttrs()) }

// P02_Dup: every document of winDup is rejected if the reference reader finds it not well-formed.
func P02_Dup() { checkReject(winDup()) }

// P02_Value: every document of winValue is rejected if the reference reader finds it not well-formed.
func P02_Value() { checkReject(winValue()) }

// P02_Unquoted: every document of winUnquoted is rejected if the reference reader finds it not well-formed.
func P02_Unquoted() { checkReject(winUnquoted()) }

// P02_Prolog: every document of winProlog is rejected if the reference reader finds it not well-formed.
func P02_Prolog() { checkReject(winProlog()) }

// P02_Epilog: every document of winEpilog is rejected if the reference reader finds it not well-formed.
func P02_Epilog() { checkReject(winEpilog()) }

// P02_Comment: every document of winComment is rejected if the reference reader finds it not well-formed.
func P02_Comment() { checkReject(winComment()) }

// P02_Bang: every document of winBang is rejected if the reference reader finds it not well-formed.
func P02_Bang() { checkReject(winBang()) }

// P02_PI: every document of winPI is rejected if the reference reader finds it not well-formed.
func P02_PI() { checkReject(winPI()) }

// P02_PIIn: every document of winPIIn is rejected if the reference reader finds it not well-formed.
func P02_PIIn() { checkReject(winPIIn()) }

// P02_CDATA: every document of winCDATA is rejected if the reference reader finds it not well-formed.
func P02_CDATA() { checkReject(winCDATA()) }

// P02_CDOpen: every document of winCDOpen is rejected if the reference reader finds it not well-formed.
func P02_CDOpen() { checkReject(winCDOpen()) }

// P02_End: every document of winEnd is rejected if the reference reader finds it not well-formed.
func P02_End() { checkReject(winEnd()) }

// P02_End2: every document of winEnd2 is rejected if the reference reader finds it not well-formed.
func P02_End2() { checkReject(winEnd2()) }

// P02_Ref: every document of winRef is rejected if the reference reader finds it not well-formed.
func P02_Ref() { checkReject(winRef()) }

// P02_CharRef: every document of winCharRef is rejected if the reference reader finds it not well-formed.
func P02_CharRef() { checkReject(winCharRef()) }

// P02_HexRef: every document of winHexRef is rejected if the reference reader finds it not well-formed.
func P02_HexRef() { checkReject(winHexRef()) }

// P02_Nested: every document of winNested is rejected if the reference reader finds it not well-formed.
func P02_Nested() { checkReject(winNested()) }

// P02_AfterEnd: every document of winAfterEnd is rejected if the reference reader finds it not well-formed.
func P02_AfterEnd() { checkReject(winAfterEnd()) }

// P02_NS: every document of winNS is rejected if the reference reader finds it not well-formed.
func P02_NS() { checkReject(winNS()) }

// P02_UTF8: every document of winUTF8 is rejected if the reference reader finds it not well-formed.
func P02_UTF8() { checkReject(winUTF8()) }

// P02_UTF8Name: every document of winUTF8Name is rejected if the reference reader finds it not well-formed.
func P02_UTF8Name() { checkReject(winUTF8Name()) }

// P02_UTF8First: every document of winUTF8First is rejected if the reference reader finds it not well-formed.
func P02_UTF8First() { checkReject(winUTF8First()) }

// P02_UTF8Value: every document of winUTF8Value is rejected if the reference reader finds it not well-formed.
func P02_UTF8Value() { checkReject(winUTF8Value()) }

// P02_UTF8Comment: every document of winUTF8Comment is rejected if the reference reader finds it not well-formed.
func P02_UTF8Comment() { checkReject(winUTF8Comment()) }

// P02_UTF8PI: every document of winUTF8PI is rejected if the reference reader finds it not well-formed.
func P02_UTF8PI() { checkReject(winUTF8PI()) }

// P02_UTF8CDATA: every document of winUTF8CDATA is rejected if the reference reader finds it not well-formed.
func P02_UTF8CDATA() { checkReject(winUTF8CDATA()) }

// P02_Pad: every document of winPad is rejected if the reference reader finds it not well-formed.
func P02_Pad() { checkReject(winPad()) }

// P02_PadTag: every document of winPadTag is rejected if the reference reader finds it not well-formed.
func P02_PadTag() { checkReject(winPadTag()) }

// P02_Tokens: every document of winTokens is rejected if the reference reader finds it not well-formed.
func P02_Tokens() { checkReject(winTokens()) }

// P02_AttrTokens: every document of winAttrTokens is rejected if the reference reader finds it not well-formed.
func P02_AttrTokens() { checkReject(winAttrTokens()) }

// P02_PadTokens: every document of winPadTokens is rejected if the reference reader finds it not well-formed.
func P02_PadTokens() { checkReject(winPadTokens()) }

// P02_Slide: every document of winSlide is rejected if the reference reader finds it not well-formed.
func P02_Slide() { checkReject(winSlide()) }

// P02_DTDSlide: every document of winDTDSlide is rejected if the reference reader finds it not well-formed.
func P02_DTDSlide() { checkReject(winDTDSlide()) }

// P02_Subset: every document of winSubset is rejected if the reference reader finds it not well-formed.
func P02_Subset() { checkReject(winSubset()) }

// P02_Decl: every document of winDecl is rejected if the reference reader finds it not well-formed.
func P02_Decl() { checkReject(winDecl()) }

// P02_Doctype: every document of winDoctype is rejected if the reference reader finds it not well-formed.
func P02_Doctype() { checkReject(winDoctype()) }

// P02_EntText: every document of winEntText is rejected if the reference reader finds it not well-formed.
func P02_EntText() { checkReject(winEntText()) }

// P02_EntMarkup: every document of winEntMarkup is rejected if the reference reader finds it not well-formed.
func P02_EntMarkup() { checkReject(winEntMarkup()) }

// P02_PEText: every document of winPEText is rejected if the reference reader finds it not well-formed.
func P02_PEText() { checkReject(winPEText()) }

// P02_Scopes: every document of winScopes is rejected if the reference reader finds it not well-formed.
func P02_Scopes() { checkReject(winScopes()) }

// P02_Models: every document of winModels is rejected if the reference reader finds it not well-formed.
func P02_Models() { checkReject(winModels()) }

// P02_XMLNames: every document of winXMLNames is rejected if the reference reader finds it not well-formed.
func P02_XMLNames() { checkReject(winXMLNames()) }

// P02_Decls: every document of winDecls is rejected if the reference reader finds it not well-formed.
func P02_Decls() { checkReject(winDecls()) }

// P02_Lists: every document of winLists is rejected if the reference reader finds it not well-formed.
func P02_Lists() { checkReject(winLists()) }

// P02_Late: every document of winLate is rejected if the reference reader finds it not well-formed.
func P02_Late() { checkReject(winLate()) }
