#!/usr/bin/env python3
"""Writes harness/h/pNN_win.go: one harness per window context for the properties below."""
import re,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','harness','h')
ws=re.findall(r'^func win(\w+)\(\)',open(d+'/win.go').read(),re.M)
for p,f,what in(('01','checkTotal','gives a document or an error, without a panic or an endless loop'),
                ('02','checkReject','is rejected if the reference reader finds it not well-formed'),
                ('03','checkAccept','is accepted with the reference tree if the reference reader finds it well-formed'),
                ('10','checkRoundTrip','serialises, if accepted, to a document with the same tree and the same serialisation'),
                ('15','checkEvents','gives a handler, with and without a tree builder, the events of the tree')):
    o='// Code generated by tools/gen_win.py. DO NOT EDIT.\n\npackage h\n'
    for w in ws:
        if p=='15' and (w.startswith('UTF8') and w!='UTF8' or w in('Unquoted','AttrTokens','CharRef','Dup','Content','Value','Tag','Attrs')): continue
        if w=='Sizes' and p in('01','02'): continue
        if w in('Enc','Multibyte') and p not in('01','10'): continue
        if p=='15' and w in('DTDSlide','Subset','Decl','Doctype','EntText','EntMarkup','PEText','Decls','Lists','Late'): continue
        if p=='10' and w in('PEText','Multibyte'): continue # references to parameter entities are not written back; the encoders' tables are too large for the solver
        if p=='10' and w in('Unquoted','AttrTokens','CharRef','Dup'): continue
        if p=='02' and w in('Items','Docs','URIs'): continue
        o+=f'\n// P{p}_{w}: every document of win{w} {what}.\nfunc P{p}_{w}() {{ {f}(win{w}()) }}\n'
    open(f'{d}/p{p}_win.go','w').write(o)
