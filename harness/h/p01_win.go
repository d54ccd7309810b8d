// Code generated by tools/gen_win.py. DO NOT EDIT.

package h

// P01_Content: every document of winContent gives a document or an error, without a panic or an endless loop.
func P01_Content() { checkTotal(winContent()) }

// P01_Tag: every document of winTag gives a document or an error, without a panic or an endless loop.
func P01_Tag() { checkTotal(winTag()) }

// P01_EmptyTag: every document of winEmptyTag gives a document or an error, without a panic or an endless loop.
func P01_EmptyTag() { checkTotal(winEmptyTag()) }

// P01_Attrs: every document of winAttrs gives a document or an error, without a panic or an endless loop.
func P01_Attrs() { checkTotal(winAttrs()) }

// P01_Dup: every document of winDup gives a document or an error, without a panic or an endless loop.
func P01_Dup() { checkTotal(winDup()) }

// P01_Value: every document of winValue gives a document or an error, without a panic or an endless loop.
func P01_Value() { checkTotal(winValue()) }

// P01_Unquoted: every document of winUnquoted gives a document or an error, without a panic or an endless loop.
func P01_Unquoted() { checkTotal(winUnquoted()) }

// P01_Prolog: every document of winProlog gives a document or an error, without a panic or an endless loop.
func P01_Prolog() { checkTotal(winProlog()) }

// P01_Epilog: every document of winEpilog gives a document or an error, without a panic or an endless loop.
func P01_Epilog() { checkTotal(winEpilog()) }

// P01_Comment: every document of winComment gives a document or an error, without a panic or an endless loop.
func P01_Comment() { checkTotal(winComment()) }

// P01_Bang: every document of winBang gives a document or an error, without a panic or an endless loop.
func P01_Bang() { checkTotal(winBang()) }

// P01_PI: every document of winPI gives a document or an error, without a panic or an endless loop.
func P01_PI() { checkTotal(winPI()) }

// P01_PIIn: every document of winPIIn gives a document or an error, without a panic or an endless loop.
func P01_PIIn() { checkTotal(winPIIn()) }

// P01_CDATA: every document of winCDATA gives a document or an error, without a panic or an endless loop.
func P01_CDATA() { checkTotal(winCDATA()) }

// P01_CDOpen: every document of winCDOpen gives a document or an error, without a panic or an endless loop.
func P01_CDOpen() { checkTotal(winCDOpen()) }

// P01_End: every document of winEnd gives a document or an error, without a panic or an endless loop.
func P01_End() { checkTotal(winEnd()) }

// P01_End2: every document of winEnd2 gives a document or an error, without a panic or an endless loop.
func P01_End2() { checkTotal(winEnd2()) }

// P01_Ref: every document of winRef gives a document or an error, without a panic or an endless loop.
func P01_Ref() { checkTotal(winRef()) }

// P01_CharRef: every document of winCharRef gives a document or an error, without a panic or an endless loop.
func P01_CharRef() { checkTotal(winCharRef()) }

// P01_HexRef: every document of winHexRef gives a document or an error, without a panic or an endless loop.
func P01_HexRef() { checkTotal(winHexRef()) }

// P01_Nested: every document of winNested gives a document or an error, without a panic or an endless loop.
func P01_Nested() { checkTotal(winNested()) }

// P01_AfterEnd: every document of winAfterEnd gives a document or an error, without a panic or an endless loop.
func P01_AfterEnd() { checkTotal(winAfterEnd()) }

// P01_NS: every document of winNS gives a document or an error, without a panic or an endless loop.
func P01_NS() { checkTotal(winNS()) }

// P01_UTF8: every document of winUTF8 gives a document or an error, without a panic or an endless loop.
func P01_UTF8() { checkTotal(winUTF8()) }

// P01_UTF8Name: every document of winUTF8Name gives a document or an error, without a panic or an endless loop.
func P01_UTF8Name() { checkTotal(winUTF8Name()) }

// P01_UTF8First: every document of winUTF8First gives a document or an error, without a panic or an endless loop.
func P01_UTF8First() { checkTotal(winUTF8First()) }

// P01_UTF8Value: every document of winUTF8Value gives a document or an error, without a panic or an endless loop.
func P01_UTF8Value() { checkTotal(winUTF8Value()) }

// P01_UTF8Comment: every document of winUTF8Comment gives a document or an error, without a panic or an endless loop.
func P01_UTF8Comment() { checkTotal(winUTF8Comment()) }

// P01_UTF8PI: every document of winUTF8PI gives a document or an error, without a panic or an endless loop.
func P01_UTF8PI() { checkTotal(winUTF8PI()) }

// P01_UTF8CDATA: every document of winUTF8CDATA gives a document or an error, without a panic or an endless loop.
func P01_UTF8CDATA() { checkTotal(winUTF8CDATA()) }

// P01_Pad: every document of winPad gives a document or an error, without a panic or an endless loop.
func P01_Pad() { checkTotal(winPad()) }

// P01_PadTag: every document of winPadTag gives a document or an error, without a panic or an endless loop.
func P01_PadTag() { checkTotal(winPadTag()) }

// P01_Tokens: every document of winTokens gives a document or an error, without a panic or an endless loop.
func P01_Tokens() { checkTotal(winTokens()) }

// P01_AttrTokens: every document of winAttrTokens gives a document or an error, without a panic or an endless loop.
func P01_AttrTokens() { checkTotal(winAttrTokens()) }

// P01_PadTokens: every document of winPadTokens gives a document or an error, without a panic or an endless loop.
func P01_PadTokens() { checkTotal(winPadTokens()) }

// P01_Slide: every document of winSlide gives a document or an error, without a panic or an endless loop.
func P01_Slide() { checkTotal(winSlide()) }

// P01_DTDSlide: every document of winDTDSlide gives a document or an error, without a panic or an endless loop.
func P01_DTDSlide() { checkTotal(winDTDSlide()) }

// P01_Subset: every document of winSubset gives a document or an error, without a panic or an endless loop.
func P01_Subset() { checkTotal(winSubset()) }

// P01_Decl: every document of winDecl gives a document or an error, without a panic or an endless loop.
func P01_Decl() { checkTotal(winDecl()) }

// P01_Doctype: every document of winDoctype gives a document or an error, without a panic or an endless loop.
func P01_Doctype() { checkTotal(winDoctype()) }

// P01_EntText: every document of winEntText gives a document or an error, without a panic or an endless loop.
func P01_EntText() { checkTotal(winEntText()) }

// P01_EntMarkup: every document of winEntMarkup gives a document or an error, without a panic or an endless loop.
func P01_EntMarkup() { checkTotal(winEntMarkup()) }

// P01_PEText: every document of winPEText gives a document or an error, without a panic or an endless loop.
func P01_PEText() { checkTotal(winPEText()) }

// P01_Enc: every document of winEnc gives a document or an error, without a panic or an endless loop.
func P01_Enc() { checkTotal(winEnc()) }

// P01_Multibyte: every document of winMultibyte gives a document or an error, without a panic or an endless loop.
func P01_Multibyte() { checkTotal(winMultibyte()) }

// P01_Items: every document of winItems gives a document or an error, without a panic or an endless loop.
func P01_Items() { checkTotal(winItems()) }

// P01_Docs: every document of winDocs gives a document or an error, without a panic or an endless loop.
func P01_Docs() { checkTotal(winDocs()) }

// P01_Scopes: every document of winScopes gives a document or an error, without a panic or an endless loop.
func P01_Scopes() { checkTotal(winScopes()) }

// P01_Models: every document of winModels gives a document or an error, without a panic or an endless loop.
func P01_Models() { checkTotal(winModels()) }

// P01_URIs: every document of winURIs gives a document or an error, without a panic or an endless loop.
func P01_URIs() { checkTotal(winURIs()) }

// P01_XMLNames: every document of winXMLNames gives a document or an error, without a panic or an endless loop.
func P01_XMLNames() { checkTotal(winXMLNames()) }

// P01_Decls: every document of winDecls gives a document or an error, without a panic or an endless loop.
func P01_Decls() { checkTotal(winDecls()) }

// P01_Lists: every document of winLists gives a document or an error, without a panic or an endless loop.
func P01_Lists() { checkTotal(winLists()) }

// P01_Late: every document of winLate gives a document or an error, without a panic or an endless loop.
func P01_Late() { checkTotal(winLate()) }
