#!/usr/bin/env python3
"""Turns ROS .msg / .srv files into plain C++ structs with the layout and the
names rosidl gives them, and a visitor used by the serialization stand-in.

    msggen.py OUT_DIR PKG=DIR [PKG=DIR ...]      (DIR holds msg/ and/or srv/)
"""
import os, re, sys

PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "float32": "float", "float64": "double",
        "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t", "int32": "int32_t",
        "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t", "string": "std::string",
        "wstring": "std::u16string"}


def snake(n):
    n = re.sub(r"(.)([A-Z][a-z]+)", r"\1_\2", n)
    n = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n)
    return n.lower()


def strip_comment(line):
    return line.split("#", 1)[0].strip()


def parse(lines, pkg):
    consts, fields, deps = [], [], []
    for line in lines:
        line = strip_comment(line)
        if not line:
            continue
        m = re.match(r"^(\S+)\s+([A-Z][A-Z0-9_]*)\s*=\s*(.+)$", line)
        if m:
            consts.append((PRIM[m[1]], m[2], m[3].strip()))
            continue
        m = re.match(r"^([\w/]+)((?:\[[^\]]*\])?)\s+(\w+)(?:\s+(.+))?$", line)
        if not m:
            raise SystemExit("msggen: cannot parse %r" % line)
        t, arr, name, default = m[1], m[2], m[3], m[4]
        base = re.sub(r"<=\d+$", "", t)
        if base in PRIM:
            ct, prim = PRIM[base], True
        else:
            prim = False
            if base == "Header":
                base = "std_msgs/Header"
            if "/" in base:
                parts = base.split("/")
                p, n = parts[0], parts[-1]
            else:
                p, n = pkg, base
            ct = "%s::msg::%s" % (p, n)
            deps.append((p, n))
        if arr == "":
            full, init = ct, ("{}" if default is None else "{%s}" % ({"True": "true", "False": "false"}.get(default, default)))
        else:
            k = arr[1:-1]
            if k.isdigit():
                full = "std::array<%s, %s>" % (ct, k)
            else:
                full = "std::vector<%s>" % ct
            init = "{}"
        fields.append((full, name, init))
    return consts, fields, deps


def struct(ns, name, consts, fields):
    o = ["struct %s" % name, "{"]
    o += ["  using SharedPtr = std::shared_ptr<%s>;" % name, "  using ConstSharedPtr = std::shared_ptr<const %s>;" % name,
          "  using UniquePtr = std::unique_ptr<%s>;" % name, "  using ConstWeakPtr = std::weak_ptr<const %s>;" % name]
    for t, n, v in consts:
        if t == "std::string":
            o.append("  static constexpr const char * %s = %s;" % (n, v))
        else:
            o.append("  static constexpr %s %s = %s;" % (t, n, v))
    for t, n, i in fields:
        o.append("  %s %s%s;" % (t, n, i))
    o.append("  template <class A> void ndtv_visit(A & a)%s" % ("" if fields else " { (void)a; }"))
    if fields:
        o.append("  {")
        o += ["    a(%s);" % n for _, n, _ in fields]
        o.append("  }")
    cmp = " && ".join("%s == o.%s" % (n, n) for _, n, _ in fields) or "true"
    o.append("  bool operator==(const %s & o) const { (void)o; return %s; }" % (name, cmp))
    o.append("  bool operator!=(const %s & o) const { return !(*this == o); }" % name)
    o.append("};")
    return "\n".join(o) + "\n"


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def main(out, specs):
    for spec in specs:
        pkg, d = spec.split("=", 1)
        for kind in ("msg", "srv"):
            dd = os.path.join(d, kind)
            if not os.path.isdir(dd):
                continue
            for fn in sorted(os.listdir(dd)):
                name, ext = os.path.splitext(fn)
                if ext != "." + kind:
                    continue
                lines = open(os.path.join(dd, fn)).read().split("\n")
                head = "// generated by msggen.py\n#pragma once\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n"
                if kind == "msg":
                    c, f, deps = parse(lines, pkg)
                    body = struct("msg", name, c, f)
                else:
                    cut = [i for i, l in enumerate(lines) if strip_comment(l) == "---"][0]
                    c1, f1, d1 = parse(lines[:cut], pkg)
                    c2, f2, d2 = parse(lines[cut + 1:], pkg)
                    deps = d1 + d2
                    body = struct("srv", name + "_Request", c1, f1) + struct("srv", name + "_Response", c2, f2)
                    body += "struct %s { using Request = %s_Request; using Response = %s_Response; };\n" % (name, name, name)
                inc = "".join("#include <%s/msg/%s.hpp>\n" % (p, snake(n)) for p, n in dict.fromkeys(deps))
                text = head + inc + "namespace %s\n{\nnamespace %s\n{\n%s}\n}\n" % (pkg, kind, body)
                write(os.path.join(out, pkg, kind, snake(name) + ".hpp"), text)


main(sys.argv[1], sys.argv[2:])
