"""Redirects calls of functions to their contracts (stubs) in a scratch copy of a source file, using clang's AST: only names in
function bodies change, the definitions stay."""
from core import *
from cut import clang_ast, off

def redirect(env, rel, stubs, d, srcdir=None):
    """Returns the path of a copy of source file rel in which calls of stubs' keys call the values."""
    srcdir = srcdir or env.src
    path = os.path.join(srcdir, rel)
    text = open(path).read()
    ast = clang_ast(env, path, srcdir)
    edits = {}
    def walk(n):
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') in stubs and n['referencedDecl'].get('kind') == 'FunctionDecl':
            b = n['range']['begin']
            b = b.get('expansionLoc', b) if 'spellingLoc' not in b else b['spellingLoc']
            o, nm = b.get('offset'), n['referencedDecl']['name']
            if o is not None and text[o:o + len(nm)] == nm:
                edits[o] = nm
        for x in n.get('inner', []):
            walk(x)
    for n in ast.get('inner', []):
        if n.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in n.get('inner', [])):
            walk(n)
    for o in sorted(edits, reverse=True):
        text = text[:o] + stubs[edits[o]] + text[o + len(edits[o]):]
    f = os.path.join(d, os.path.basename(rel).replace('.c', '_stubs.c'))
    open(f, 'w').write(text)
    return f
