"""Mechanical extraction for loops of unbounded length: cut at the loop head.

The current text of a source file of /repo is copied verbatim, except that every
loop for which the unit supplies an invariant is rewritten in place

    while(c) B            {  CUT_ENTRY_f_n  for(; c; CUT_BACK_f_n)        B  CUT_EXIT_f_n }
    for(I; c; S) B        {  I; CUT_ENTRY_f_n  for(; c; (S), CUT_BACK_f_n) B  CUT_EXIT_f_n }
    do B while(c);        {  _Bool first = 1; ... for(; first || c; ...) B }

where CUT_ENTRY asserts the invariant, assigns arbitrary values to everything
the loop can change and assumes the invariant, and CUT_BACK asserts the
invariant again, asserts that the measure decreased, and ends the path.  This is
the standard while rule; the loop body, the condition and everything else is the
text of /repo.  Variables the loop assigns are found from clang's AST of the
current source; memory is havocked by the unit (CUT_MEM_f_n) and framed by its
invariant."""
import json, os, re, subprocess
from common import *


def clang_ast(path, defs=()):
    p = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-I" + REPO] + list(defs) + [path],
                       capture_output=True, timeout=120)
    if p.returncode != 0:
        raise RuntimeError("clang: " + p.stderr.decode()[-800:])
    return json.loads(p.stdout)


def _off(loc):
    """file offset of a location (expansion side of macros)"""
    if "expansionLoc" in loc:
        loc = loc["expansionLoc"]
    return loc.get("offset"), loc.get("tokLen", 0)


def _end(n, text):
    """offset just past an expression; a macro call ends at its closing parenthesis"""
    l = n["range"]["end"]
    e = sum(_off(l))
    if "expansionLoc" in l and text[e:e + 1] == b"(":
        d = 0
        while True:
            d += {40: 1, 41: -1}.get(text[e], 0)
            e += 1
            if d == 0:
                break
    return e


def walk(n):
    yield n
    for c in n.get("inner", []) or []:
        if c:
            yield from walk(c)


def functions(ast, path):
    """FunctionDecl with a body that belong to path itself."""
    cur = None
    res = {}
    for d in ast["inner"]:
        loc = d.get("loc", {})
        if "expansionLoc" in loc:
            loc = loc["expansionLoc"]
        if "file" in loc:
            cur = loc["file"]
        # ranges may switch the file as well
        if d["kind"] == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", [])):
            if cur is None or os.path.realpath(cur) == os.path.realpath(path):
                res[d["name"]] = d
        for n in walk(d):
            for k in ("loc",):
                l = n.get(k, {})
                if "expansionLoc" in l:
                    l = l["expansionLoc"]
                if "file" in l:
                    cur = l["file"]
            for e in ("begin", "end"):
                l = n.get("range", {}).get(e, {})
                if "expansionLoc" in l:
                    l = l["expansionLoc"]
                if "file" in l:
                    cur = l["file"]
    return res


def strip(e):
    while e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"):
        e = e["inner"][0] if e["kind"] != "CStyleCastExpr" else e["inner"][-1]
    return e


def base_var(e):
    """variable an lvalue stores into, if it is a local object (not through a pointer)"""
    e = strip(e)
    if e["kind"] == "DeclRefExpr":
        return e["referencedDecl"]
    if e["kind"] == "MemberExpr" and not e.get("isArrow"):
        return base_var(e["inner"][0])
    if e["kind"] == "ArraySubscriptExpr":
        b = strip(e["inner"][0])
        if b["kind"] == "DeclRefExpr" and "[" in b["referencedDecl"].get("type", {}).get("qualType", ""):
            return b["referencedDecl"]
        if b["kind"] == "MemberExpr":
            return base_var(b)
    return None


def assigned(loop, params=True):
    names = {}
    declared = set()
    for n in walk(loop):
        k = n.get("kind")
        if k == "VarDecl":
            declared.add(n["id"])
        tgt = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">="):
            tgt = base_var(n["inner"][0])
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
            tgt = base_var(n["inner"][0])
        elif k == "ImplicitCastExpr" and n.get("castKind") == "ArrayToPointerDecay":
            t = strip(n["inner"][0])
            # an array passed on may be written by the callee; const arrays are not
            if t["kind"] == "DeclRefExpr" and "const" not in t["referencedDecl"]["type"]["qualType"]:
                tgt = None if n.get("_sub") else t["referencedDecl"]
        elif k == "ArraySubscriptExpr":
            for c in n["inner"]:
                c["_sub"] = True
        if tgt is not None:
            names[tgt["id"]] = tgt
    return [(d["name"], d["type"]["qualType"]) for i, d in names.items() if i not in declared and d["kind"] in (("VarDecl", "ParmVarDecl") if params else ("VarDecl",))]


LOOPS = ("WhileStmt", "ForStmt", "DoStmt")


def is_loop(n):
    if n.get("kind") not in LOOPS:
        return False
    if n["kind"] == "DoStmt":                  # do { ... } while(0) is a block
        c = strip(n["inner"][-1])
        return not (c.get("kind") == "IntegerLiteral" and c.get("value") == "0")
    return True


def cut(src_path, out_path, loops, defs=(), rename=(), subst=()):
    """loops: {function: ([ordinals to cut (0-based, source order)], number of loops in the function[, "linked"])}
    "state": the loop state lives in memory and parameters (see CUT_STATE in cut.h): only locals are havocked.
    rename: functions whose definition is renamed to <function>_real, preceded by the unit's
    STUB_<function>: every call then goes to the contract the unit states there."""
    # subst: textual (regex, replacement) that wraps an expression into an identity of the unit's
    ast = clang_ast(src_path, defs)
    text = open(src_path, "rb").read()
    fns = functions(ast, src_path)
    edits = []
    for fn in rename:
        if fn not in fns:
            raise RuntimeError("function %s not found in %s" % (fn, src_path))
        b, _ = _off(fns[fn]["range"]["begin"])
        l, tl = _off(fns[fn]["loc"])
        if text[l:l + tl] != fn.encode():
            raise RuntimeError("definition of %s not plain text" % fn)
        edits.append((b, b, "STUB_%s " % fn))
        edits.append((l, l + tl, fn + "_real"))
    for fn, ords in loops.items():
        if fn not in fns:
            raise RuntimeError("function %s not found in %s" % (fn, src_path))
        found = [n for n in walk(fns[fn]) if is_loop(n)]
        linkedv = len(ords) > 2 and ords[2] == "linkedv"
        linked = len(ords) > 2 and ords[2] in ("linked", "linkedv")
        state = len(ords) > 2 and ords[2] == "state"
        ords, total = ords[:2]
        if len(found) != total:
            raise RuntimeError("%s has %d loops, the unit expects %d" % (fn, len(found), total))
        for o in ords:
            lp = found[o]
            b, _ = _off(lp["range"]["begin"])
            e, tl = _off(lp["range"]["end"])
            e += tl
            tag = "%s_%d" % (fn, o)
            hav, same = "LINKED_%s; " % tag if linked else "", ""
            for v, t in assigned(lp, params=not state):
                if t.rstrip().endswith("*") and linkedv:   # likewise, one candidate per variable
                    hav += "%s = CUT_LINKV_%s_%s; " % (v, tag, v)
                elif t.rstrip().endswith("*") and linked:    # follows links: one of the unit's ghost candidates
                    hav += "%s = CUT_LINK_%s; " % (v, tag)
                elif t.rstrip().endswith("*"):     # stays in its object (asserted at the back edge), offset arbitrary
                    hav += "CUT_HAVOC_PTR(%s, %s) " % (v, tag)
                    same += "CUT_SAME(%s, %s), " % (v, tag)
                else:
                    hav += "CUT_HAVOC_VAR(%s) " % v
            inner = lp["inner"]
            body = inner[-1] if lp["kind"] != "DoStmt" else inner[0]
            entry = "CUT_ENTRY(%s, %s)" % (tag, hav)
            bb, _ = _off(body["range"]["begin"])
            if lp["kind"] == "DoStmt":
                raise RuntimeError("do loop in %s: not supported" % fn)
            hd = text[b:bb].decode("latin-1")            # while (c)   for (i; c; s)
            hd = hd[hd.index("(") + 1:hd.rindex(")")]
            if lp["kind"] == "WhileStmt":
                init, head, inc = "", hd, ""
            else:
                parts, depth, q = [""], 0, None
                for c in hd:
                    if q:
                        q = None if c == q else q
                    elif c in "\"'":
                        q = c
                    elif c in "([{":
                        depth += 1
                    elif c in ")]}":
                        depth -= 1
                    if c == ";" and depth == 0 and not q:
                        parts.append("")
                    else:
                        parts[-1] += c
                if len(parts) != 3:
                    raise RuntimeError("for header in %s not understood" % fn)
                init = parts[0].strip() + ";" if parts[0].strip() else ""
                head = parts[1].strip() or "1"
                inc = "(%s), " % parts[2].strip() if parts[2].strip() else ""
            # keep the body text (other edits may lie inside): replace only the header and add a tail
            edits.append((b, bb, "{ %s %s for(; %s; %s%sCUT_BACK(%s)) " % (init, entry, head, inc, same, tag)))
            end = e
            if text[e:e + 1] == b";" and body["kind"] not in ("CompoundStmt",):
                end = e + 1
            edits.append((end, end, " CUT_EXIT(%s) }" % tag))
    if ("%",) in subst:          # every unsigned a % b becomes CV_MOD(a, b), which the unit specifies
        heads = [(b, e) for b, e, _ in edits if e > b]
        for f in fns.values():
            for n in walk(f):
                if n.get("kind") != "BinaryOperator" or n.get("opcode") != "%" or not n["type"].get("desugaredQualType", n["type"]["qualType"]).startswith("unsigned"):
                    continue
                l, r = n["inner"]
                b, le, rb, e = _off(l["range"]["begin"])[0], _end(l, text), _off(r["range"]["begin"])[0], _end(r, text)
                if text[le:rb].strip() != b"%" or any(x < e and b < y for x, y in heads):
                    continue
                edits += [(b, b, "CV_MOD("), (le, rb, ", "), (e, e, ")")]
        subst = [x for x in subst if x != ("%",)]
    edits.sort(key=lambda x: -x[0])
    for b, e, s in edits:
        text = text[:b] + s.encode() + text[e:]
    for pat, rep in subst:
        text = re.sub(pat.encode(), rep.encode(), text)
    os.makedirs(os.path.dirname(out_path), exist_ok=True)
    with open(out_path, "wb") as f:
        f.write(text)


def transform(rel, loops, defs=(), rename=()):
    def go(d):
        cut(os.path.join(REPO, rel), os.path.join(d, "cut", rel), loops, defs, rename)
        return d
    return go
