"""Front end: clang's JSON AST of the real sources, re-extracted on every run."""
import json, subprocess, os, sys, re

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class ExtractError(Exception):
    pass

def clang_flags():
    return ["-std=c++17", "-I" + os.path.join(VERIF, "stub"), "-I" + REPO + "/include",
            "-I/usr/include/eigen3", "-w"]

class AST:
    def __init__(self, tu_text, workdir):
        tu = os.path.join(workdir, "tu.cpp")
        with open(tu, "w") as f:
            f.write(tu_text)
        out = os.path.join(workdir, "ast.json")
        cmd = ["clang++", "-fsyntax-only"] + clang_flags() + ["-Xclang", "-ast-dump=json", "-Xclang",
               "-ast-dump-filter=StochTree", tu]
        with open(out, "wb") as f:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise ExtractError("clang failed: " + r.stderr.decode()[-2000:])
        s = open(out).read()
        os.unlink(out)
        dec = json.JSONDecoder()
        i, n = 0, len(s)
        self.docs = []
        while True:
            while i < n and s[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            self.docs.append(o)
        self.byid = {}        # decl id -> node
        self.funcs = {}       # qualified name -> [nodes with a body]
        self.defof = {}       # canonical decl id -> definition node
        self.records = {}     # simple name -> node
        self.enums = {}
        self.enumconst = {}
        self.parent = {}
        self._file = None
        self._line = None
        seen = set()
        for d in self.docs:
            self._walk(d, [], None)
        self._link()

    def _loc(self, l):
        if not l:
            return
        for k in ("spellingLoc", "expansionLoc"):
            if k in l:
                self._loc(l[k])
        if "file" in l:
            self._file = l["file"]
        if "line" in l:
            self._line = l["line"]

    def _walk(self, n, scope, parent):
        if not isinstance(n, dict) or not n:
            return
        k = n.get("kind")
        self._loc(n.get("loc"))
        r = n.get("range")
        if r:
            self._loc(r.get("begin"))
            n["_l"] = (self._file, self._line)
            self._loc(r.get("end"))
        if k in ("FullComment",):
            return
        nid = n.get("id")
        sc = scope
        if k in ("NamespaceDecl",):
            sc = scope + [n.get("name", "")]
        elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            nm = n.get("name", "")
            n["_qn"] = "::".join(scope + [nm])
            if n.get("completeDefinition") and nm:
                self.records.setdefault(nm, []).append(n)
            sc = scope + [nm]
        elif k == "EnumDecl":
            self.enums[n.get("name")] = n
        elif k == "EnumConstantDecl":
            self.enumconst[nid] = n
        if k and k.endswith("Decl"):
            if nid:
                # keep the version carrying most information
                old = self.byid.get(nid)
                if old is None or len(old.get("inner", [])) < len(n.get("inner", [])):
                    self.byid[nid] = n
            n["_scope"] = sc
            n["_parent"] = parent
        ispart = k in ("FunctionTemplateDecl", "ClassTemplateDecl")
        for c in n.get("inner", []):
            self._walk(c, sc, n if (k and k.endswith("Decl")) else parent)

    def _link(self):
        # functions with bodies by qualified name
        done = set()
        def walk(n):
            if not isinstance(n, dict):
                return
            k = n.get("kind")
            if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl"):
                if n["id"] in done and not self._body(n):
                    return
                if self._body(n) is not None and n["id"] not in done:
                    done.add(n["id"])
                    pid = n.get("previousDecl")
                    scope = list(n.get("_scope", []))
                    pd = n.get("parentDeclContextId")
                    if pd and pd in self.byid and self.byid[pd].get("kind", "").startswith(("CXXRecord", "ClassTemplate")):
                        rec = self.byid[pd]
                        qn = rec.get("_qn", rec.get("name", "")) + "::" + n["name"]
                    else:
                        qn = "::".join(scope + [n["name"]])
                    n["_qn"] = qn
                    self.funcs.setdefault(qn, []).append(n)
                    self.defof[n["id"]] = n
                    p = pid
                    hops = 0
                    while p and hops < 8:
                        self.defof.setdefault(p, n)
                        p = self.byid.get(p, {}).get("previousDecl")
                        hops += 1
            for c in n.get("inner", []):
                walk(c)
        for d in self.docs:
            walk(d)

    @staticmethod
    def _body(n):
        for c in n.get("inner", []):
            if isinstance(c, dict) and c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    body = _body

    @staticmethod
    def params(n):
        return [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind") == "ParmVarDecl"]

    def definition(self, declid):
        d = self.defof.get(declid)
        if d is not None:
            return d
        n = self.byid.get(declid)
        if n is not None and self._body(n) is not None:
            return n
        return None
