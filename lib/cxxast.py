"""Front end: the resolved clang AST of the native header, without running or compiling it to code."""
import json, mmap, os, re, subprocess, tempfile, hashlib

HEADER = "C++/DifferentiableRenderer.h"


class FrontEndError(Exception):
    pass


def load_tu(repo, extra=""):
    """Return the list of top-level declarations (clang JSON AST) that come from files below /repo/C++."""
    header = os.path.join(repo, HEADER)
    if not os.path.exists(header):
        raise FrontEndError("native header not found: " + header)
    d = tempfile.mkdtemp(prefix="verif_cxx_")
    try:
        tu = os.path.join(d, "tu.cpp")
        with open(tu, "w") as f:
            # same preprocessor context as the generated Cython translation unit (limits come in through Python.h)
            f.write('#include <climits>\n#include <cmath>\n#include "%s"\n%s\n' % (header, extra))
        out = os.path.join(d, "ast.json")
        with open(out, "w") as f:
            r = subprocess.run(
                ["clang++", "-std=c++17", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", tu],
                stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise FrontEndError("clang could not parse the native header:\n" + r.stderr[:4000])
        return _extract(out, os.path.dirname(header), tu)
    finally:
        for fn in ("tu.cpp", "ast.json"):
            p = os.path.join(d, fn)
            if os.path.exists(p):
                os.unlink(p)
        os.rmdir(d)


_TOK = re.compile(rb'\n    \{\n|"file": "([^"]*)"')


def _extract(path, prefix, tu):
    decls = []
    with open(path, "rb") as f:
        mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        cur = b""
        starts = []  # (offset, file at start)
        seen_in_elem = True
        keepfrom = None
        pre = prefix.encode()
        tub = tu.encode()
        # pass: the file of an element is the first file printed inside its own loc, else the file current before it
        elems = []
        for m in _TOK.finditer(mm):
            if m.group(1) is None:
                elems.append([m.start() + 1, cur])
                seen_in_elem = False
            else:
                cur = m.group(1)
                if not seen_in_elem:
                    # only if it belongs to the element's own loc (printed within the first bytes of the element)
                    if elems and m.start() - elems[-1][0] < 200:
                        elems[-1][1] = cur
                    seen_in_elem = True
        end = mm.rfind(b"\n  ]")
        for i, (off, fl) in enumerate(elems):
            if fl.startswith(pre) or fl == tub:
                stop = elems[i + 1][0] if i + 1 < len(elems) else end
                txt = mm[off:stop].strip().rstrip(b",")
                decls.append(json.loads(txt))
        mm.close()
    if not decls:
        raise FrontEndError("no declaration of the native header found in the AST")
    return decls
