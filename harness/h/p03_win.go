// Code generated by tools/gen_win.py. DO NOT EDIT.

package h

// P03_Content: every document of winContent is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Content() { checkAccept(winContent()) }

// P03_Tag: every document of winTag is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Tag() { checkAccept(winTag()) }

// P03_EmptyTag: every document of winEmptyTag is accepted with the reference tree if the reference reader finds it well-formed.
func P03_EmptyTag() { checkAccept(winEmptyTag()) }

// P03_Attrs: every document of winAttrs is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Attrs() { checkAccept(winAttrs()) }

// P03_Dup: every document of winDup is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Dup() { checkAccept(winDup()) }

// P03_Value: every document of winValue is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Value() { checkAccept(winValue()) }

// P03_Unquoted: every document of winUnquoted is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Unquoted() { checkAccept(winUnquoted()) }

// P03_Prolog: every document of winProlog is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Prolog() { checkAccept(winProlog()) }

// P03_Epilog: every document of winEpilog is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Epilog() { checkAccept(winEpilog()) }

// P03_Comment: every document of winComment is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Comment() { checkAccept(winComment()) }

// P03_Bang: every document of winBang is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Bang() { checkAccept(winBang()) }

// P03_PI: every document of winPI is accepted with the reference tree if the reference reader finds it well-formed.
func P03_PI() { checkAccept(winPI()) }

// P03_PIIn: every document of winPIIn is accepted with the reference tree if the reference reader finds it well-formed.
func P03_PIIn() { checkAccept(winPIIn()) }

// P03_CDATA: every document of winCDATA is accepted with the reference tree if the reference reader finds it well-formed.
func P03_CDATA() { checkAccept(winCDATA()) }

// P03_CDOpen: every document of winCDOpen is accepted with the reference tree if the reference reader finds it well-formed.
func P03_CDOpen() { checkAccept(winCDOpen()) }

// P03_End: every document of winEnd is accepted with the reference tree if the reference reader finds it well-formed.
func P03_End() { checkAccept(winEnd()) }

// P03_End2: every document of winEnd2 is accepted with the reference tree if the reference reader finds it well-formed.
func P03_End2() { checkAccept(winEnd2()) }

// P03_Ref: every document of winRef is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Ref() { checkAccept(winRef()) }

// P03_CharRef: every document of winCharRef is accepted with the reference tree if the reference reader finds it well-formed.
func P03_CharRef() { checkAccept(winCharRef()) }

// P03_HexRef: every document of winHexRef is accepted with the reference tree if the reference reader finds it well-formed.
func P03_HexRef() { checkAccept(winHexRef()) }

// P03_Nested: every document of winNested is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Nested() { checkAccept(winNested()) }

// P03_AfterEnd: every document of winAfterEnd is accepted with the reference tree if the reference reader finds it well-formed.
func P03_AfterEnd() { checkAccept(winAfterEnd()) }

// P03_NS: every document of winNS is accepted with the reference tree if the reference reader finds it well-formed.
func P03_NS() { checkAccept(winNS()) }

// P03_UTF8: every document of winUTF8 is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8() { checkAccept(winUTF8()) }

// P03_UTF8Name: every document of winUTF8Name is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8Name() { checkAccept(winUTF8Name()) }

// P03_UTF8First: every document of winUTF8First is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8First() { checkAccept(winUTF8First()) }

// P03_UTF8Value: every document of winUTF8Value is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8Value() { checkAccept(winUTF8Value()) }

// P03_UTF8Comment: every document of winUTF8Comment is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8Comment() { checkAccept(winUTF8Comment()) }

// P03_UTF8PI: every document of winUTF8PI is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8PI() { checkAccept(winUTF8PI()) }

// P03_UTF8CDATA: every document of winUTF8CDATA is accepted with the reference tree if the reference reader finds it well-formed.
func P03_UTF8CDATA() { checkAccept(winUTF8CDATA()) }

// P03_Pad: every document of winPad is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Pad() { checkAccept(winPad()) }

// P03_PadTag: every document of winPadTag is accepted with the reference tree if the reference reader finds it well-formed.
func P03_PadTag() { checkAccept(winPadTag()) }

// P03_Tokens: every document of winTokens is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Tokens() { checkAccept(winTokens()) }

// P03_AttrTokens: every document of winAttrTokens is accepted with the reference tree if the reference reader finds it well-formed.
func P03_AttrTokens() { checkAccept(winAttrTokens()) }

// P03_PadTokens: every document of winPadTokens is accepted with the reference tree if the reference reader finds it well-formed.
func P03_PadTokens() { checkAccept(winPadTokens()) }

// P03_Slide: every document of winSlide is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Slide() { checkAccept(winSlide()) }

// P03_DTDSlide: every document of winDTDSlide is accepted with the reference tree if the reference reader finds it well-formed.
func P03_DTDSlide() { checkAccept(winDTDSlide()) }

// P03_Subset: every document of winSubset is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Subset() { checkAccept(winSubset()) }

// P03_Decl: every document of winDecl is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Decl() { checkAccept(winDecl()) }

// P03_Doctype: every document of winDoctype is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Doctype() { checkAccept(winDoctype()) }

// P03_EntText: every document of winEntText is accepted with the reference tree if the reference reader finds it well-formed.
func P03_EntText() { checkAccept(winEntText()) }

// P03_EntMarkup: every document of winEntMarkup is accepted with the reference tree if the reference reader finds it well-formed.
func P03_EntMarkup() { checkAccept(winEntMarkup()) }

// P03_PEText: every document of winPEText is accepted with the reference tree if the reference reader finds it well-formed.
func P03_PEText() { checkAccept(winPEText()) }

// P03_Sizes: every document of winSizes is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Sizes() { checkAccept(winSizes()) }

// P03_Items: every document of winItems is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Items() { checkAccept(winItems()) }

// P03_Docs: every document of winDocs is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Docs() { checkAccept(winDocs()) }

// P03_Scopes: every document of winScopes is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Scopes() { checkAccept(winScopes()) }

// P03_Models: every document of winModels is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Models() { checkAccept(winModels()) }

// P03_URIs: every document of winURIs is accepted with the reference tree if the reference reader finds it well-formed.
func P03_URIs() { checkAccept(winURIs()) }

// P03_XMLNames: every document of winXMLNames is accepted with the reference tree if the reference reader finds it well-formed.
func P03_XMLNames() { checkAccept(winXMLNames()) }

// P03_Decls: every document of winDecls is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Decls() { checkAccept(winDecls()) }

// P03_Lists: every document of winLists is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Lists() { checkAccept(winLists()) }

// P03_Late: every document of winLate is accepted with the reference tree if the reference reader finds it well-formed.
func P03_Late() { checkAccept(winLate()) }
