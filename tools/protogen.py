"""Generate the Rust module for /repo/schemas/witnet/witnet.proto, in the shape rust-protobuf 2 gives it."""
import re

SCALARS = {
    "uint32": ("u32", "Uint32"),
    "uint64": ("u64", "Uint64"),
    "int32": ("i32", "Int32"),
    "int64": ("i64", "Int64"),
    "bool": ("bool", "Bool"),
    "fixed32": ("u32", "Fixed32"),
    "fixed64": ("u64", "Fixed64"),
    "double": ("f64", "Double"),
    "float": ("f32", "Float"),
    "bytes": ("Vec<u8>", "Bytes"),
    "string": ("String", "Str"),
}
KEYWORDS = {"type", "match", "move", "ref", "mod", "in"}


def parse(text):
    text = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
    toks = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]()]', text)
    pos = 0
    msgs, enums = [], []

    def peek():
        return toks[pos]

    def take(x=None):
        nonlocal pos
        t = toks[pos]
        if x is not None and t != x:
            raise SystemExit(f"protogen: expected {x}, found {t}")
        pos += 1
        return t

    def field(m, oneof=None):
        rep = False
        if peek() == "repeated":
            take()
            rep = True
        elif peek() == "optional":
            raise SystemExit("protogen: optional fields are not supported")
        ty = take()
        name = take()
        take("=")
        num = int(take())
        if peek() == "[":
            while take() != "]":
                pass
        take(";")
        m["fields"].append({"type": ty, "name": name, "num": num, "rep": rep, "oneof": oneof})

    def message(prefix):
        take("message")
        name = prefix + [take()]
        m = {"name": name, "fields": [], "oneofs": []}
        msgs.append(m)
        take("{")
        while peek() != "}":
            if peek() == "message":
                message(name)
            elif peek() == "enum":
                enum(name)
            elif peek() == "oneof":
                take()
                o = take()
                m["oneofs"].append(o)
                take("{")
                while peek() != "}":
                    field(m, o)
                take("}")
            elif peek() in ("reserved", "option"):
                while take() != ";":
                    pass
            elif peek() == ";":
                take()
            else:
                field(m)
        take("}")

    def enum(prefix):
        take("enum")
        e = {"name": prefix + [take()], "values": []}
        enums.append(e)
        take("{")
        while peek() != "}":
            n = take()
            take("=")
            e["values"].append((n, int(take())))
            take(";")
        take("}")

    while pos < len(toks):
        if peek() == "message":
            message([])
        elif peek() == "enum":
            enum([])
        else:
            while take() != ";":
                pass
    return msgs, enums


def generate(text):
    msgs, enums = parse(text)
    types = {tuple(m["name"]): ("msg", "_".join(m["name"])) for m in msgs}
    types.update({tuple(e["name"]): ("enum", "_".join(e["name"])) for e in enums})

    def resolve(scope, ty):
        if ty in SCALARS:
            return ("scalar",) + SCALARS[ty]
        parts = tuple(ty.split("."))
        for k in range(len(scope), -1, -1):
            t = types.get(tuple(scope[:k]) + parts)
            if t:
                return t
        raise SystemExit(f"protogen: unknown type {ty}")

    o = []
    w = o.append
    for e in enums:
        n = "_".join(e["name"])
        w(f"#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]\npub enum {n} {{")
        for a, b in e["values"]:
            w(f"    {a} = {b},")
        w("}")
        w(f"impl Default for {n} {{ fn default() -> Self {{ {n}::{e['values'][0][0]} }} }}")
        w(f"impl ::protobuf::ProtobufEnum for {n} {{")
        w("    fn value(&self) -> i32 { *self as i32 }")
        w("    fn from_i32(v: i32) -> Option<Self> { match v {")
        for a, b in e["values"]:
            w(f"        {b} => Some({n}::{a}),")
        w("        _ => None } }\n}")
    for m in msgs:
        n = "_".join(m["name"])
        fs = []
        for f in m["fields"]:
            r = resolve(m["name"], f["type"])
            ty = r[1]
            fs.append(dict(f, kind=r[0], rust=ty, k=r[2] if r[0] == "scalar" else f"Enum::<{ty}>", id=("r#" if f["name"] in KEYWORDS else "") + f["name"]))
        w(f"#[derive(Clone, PartialEq, Default, Debug)]\npub struct {n} {{")
        for f in fs:
            if f["oneof"]:
                continue
            t = f["rust"]
            if f["rep"]:
                t = f"Vec<{t}>"
            elif f["kind"] == "msg":
                t = f"Option<{t}>"
            w(f"    pub {f['id']}: {t},")
        for oo in m["oneofs"]:
            w(f"    pub {oo}: Option<{n}_oneof_{oo}>,")
        w("}")
        for oo in m["oneofs"]:
            w(f"#[derive(Clone, PartialEq, Debug)]\npub enum {n}_oneof_{oo} {{")
            for f in fs:
                if f["oneof"] == oo:
                    w(f"    {f['name']}({f['rust']}),")
            w("}")
        w(f"impl {n} {{\n    pub fn new() -> Self {{ Default::default() }}")
        for f in fs:
            a, t, i = f["name"], f["rust"], f["id"]
            ref = {"String": "&str", "Vec<u8>": "&[u8]"}.get(t, t if f["kind"] != "msg" else f"&{t}")
            if f["oneof"]:
                q = f"{n}_oneof_{f['oneof']}::{a}"
                s = f"self.{f['oneof']}"
                w(f"    pub fn set_{a}(&mut self, v: {t}) {{ {s} = Some({q}(v)); }}")
                w(f"    pub fn has_{a}(&self) -> bool {{ matches!({s}, Some({q}(_))) }}")
                w(f"    pub fn clear_{a}(&mut self) {{ {s} = None; }}")
                w(f"    pub fn take_{a}(&mut self) -> {t} {{ if self.has_{a}() {{ if let Some({q}(v)) = {s}.take() {{ return v; }} }} Default::default() }}")
            elif f["rep"]:
                w(f"    pub fn get_{a}(&self) -> &[{t}] {{ &self.{i} }}")
                w(f"    pub fn set_{a}(&mut self, v: Vec<{t}>) {{ self.{i} = v; }}")
                w(f"    pub fn mut_{a}(&mut self) -> &mut Vec<{t}> {{ &mut self.{i} }}")
                w(f"    pub fn take_{a}(&mut self) -> Vec<{t}> {{ ::core::mem::take(&mut self.{i}) }}")
                w(f"    pub fn clear_{a}(&mut self) {{ self.{i} = Default::default(); }}")
            elif f["kind"] == "msg":
                w(f"    pub fn get_{a}(&self) -> &{t} {{ match &self.{i} {{ Some(x) => x, None => ::protobuf::default_instance() }} }}")
                w(f"    pub fn set_{a}(&mut self, v: {t}) {{ self.{i} = Some(v); }}")
                w(f"    pub fn has_{a}(&self) -> bool {{ self.{i}.is_some() }}")
                w(f"    pub fn mut_{a}(&mut self) -> &mut {t} {{ self.{i}.get_or_insert_with(Default::default) }}")
                w(f"    pub fn take_{a}(&mut self) -> {t} {{ self.{i}.take().unwrap_or_default() }}")
                w(f"    pub fn clear_{a}(&mut self) {{ self.{i} = None; }}")
            else:
                w(f"    pub fn get_{a}(&self) -> {ref} {{ {'&' if ref.startswith('&') else ''}self.{i} }}")
                w(f"    pub fn set_{a}(&mut self, v: {t}) {{ self.{i} = v; }}")
                w(f"    pub fn mut_{a}(&mut self) -> &mut {t} {{ &mut self.{i} }}")
                w(f"    pub fn take_{a}(&mut self) -> {t} {{ ::core::mem::take(&mut self.{i}) }}")
                w(f"    pub fn clear_{a}(&mut self) {{ self.{i} = Default::default(); }}")
        w("}")
        w(f"impl ::protobuf::Message for {n} {{\n    fn new() -> Self {{ Default::default() }}")
        w("    fn write_to(&self, out: &mut Vec<u8>) {\n        let _ = &out;")
        done = set()
        for f in sorted(fs, key=lambda f: f["num"]):
            i, k = f["id"], "::protobuf::" + f["k"]
            if f["oneof"]:
                if f["oneof"] in done:
                    continue
                done.add(f["oneof"])
                w(f"        match &self.{f['oneof']} {{ None => (),")
                for g in fs:
                    if g["oneof"] == f["oneof"]:
                        e = f"::protobuf::put_msg(out, {g['num']}, v)" if g["kind"] == "msg" else f"<::protobuf::{g['k']} as ::protobuf::Kind>::put(out, {g['num']}, v)"
                        w(f"            Some({n}_oneof_{g['oneof']}::{g['name']}(v)) => {e},")
                w("        }")
            elif f["rep"]:
                if f["kind"] == "msg":
                    w(f"        for v in &self.{i} {{ ::protobuf::put_msg(out, {f['num']}, v); }}")
                elif f["rust"] in ("String", "Vec<u8>"):
                    w(f"        for v in &self.{i} {{ <{k} as ::protobuf::Kind>::put(out, {f['num']}, v); }}")
                else:
                    raise SystemExit("protogen: repeated scalars are not supported")
            elif f["kind"] == "msg":
                w(f"        if let Some(v) = &self.{i} {{ ::protobuf::put_msg(out, {f['num']}, v); }}")
            else:
                w(f"        ::protobuf::put_opt::<{k}>(out, {f['num']}, &self.{i});")
        w("    }")
        w("    fn merge_field(&mut self, number: u32, wire: u8, input: &mut ::protobuf::Reader<'_>) -> ::protobuf::ProtobufResult<bool> {")
        w("        let _ = (&wire, &input);\n        match number {")
        for f in fs:
            i, k = f["id"], "::protobuf::" + f["k"]
            if f["oneof"]:
                q = f"{n}_oneof_{f['oneof']}::{f['name']}"
                if f["kind"] == "msg":
                    # rust-protobuf 2 replaces the value of a repeated oneof field
                    e = f"{{ let mut v: {f['rust']} = Default::default(); ::protobuf::get_msg(&mut v, wire, input)?; self.{f['oneof']} = Some({q}(v)); }}"
                else:
                    e = f"self.{f['oneof']} = Some({q}(<{k} as ::protobuf::Kind>::get(wire, input)?)),"
            elif f["rep"]:
                if f["kind"] == "msg":
                    e = f"{{ let mut v: {f['rust']} = Default::default(); ::protobuf::get_msg(&mut v, wire, input)?; self.{i}.push(v); }}"
                else:
                    e = f"self.{i}.push(<{k} as ::protobuf::Kind>::get(wire, input)?),"
            elif f["kind"] == "msg":
                e = f"::protobuf::get_msg(self.{i}.get_or_insert_with(Default::default), wire, input)?,"
            else:
                e = f"self.{i} = <{k} as ::protobuf::Kind>::get(wire, input)?,"
            w(f"            {f['num']} => {e}")
        w("            _ => return Ok(false),\n        }\n        Ok(true)\n    }\n}")
    return "pub mod witnet {\n#![allow(non_camel_case_types, non_snake_case, dead_code, unused_variables, unused_mut, clippy::all)]\n" + "\n".join(o) + "\n}\n"


if __name__ == "__main__":
    import sys

    print(generate(open(sys.argv[1]).read()))
