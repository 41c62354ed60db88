#!/usr/bin/env python3
"""Sample model definitions: writes samples/src/lib.rs (the models), harness/src/c24_models.rs (what each must
do, for the native search) and specs/derive.vs (what the code generated for each must do, for the proof)."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KIND = {k: k for k in "i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool".split()}
KIND.update({"str": "String", "bytes": "Vec<u8>", "date": "NaiveDate", "datetime": "NaiveDateTime", "dur": "Duration", "hex": "Hex"})


def ty(k):
    return f"Option<{KIND[k[:-1]]}>" if k.endswith("?") else KIND[k]


ALL = list(KIND)
# the small structs whose members are columns of the model: path -> members and kinds
STRUCTS = {"Vec3": [("x", "f32"), ("y", "f64"), ("z", "i16")], "geo::Point": [("lat", "f64"), ("lon", "f64?")], "Pair": [("a", "str"), ("b", "u8?")],
           "Point": [("lat", "f64"), ("lon", "f64?")]}
# model, table, primary key, auto increment, structs as the attribute gives them (member, column), fields
M = [
    ("Leaf", "leaf", "id", False, {}, [("id", "u32"), ("name", "str")]),
    ("World", "world", "id", True, {}, [("id", "u32"), ("name", "str"), ("level", "u8"), ("played", "datetime?")]),
    ("Whole", "whole", "id", True, {}, [("id", "u64")] + [("a_" + k, k) for k in ALL[:8]]),
    ("Other", "other", "id", True, {}, [("id", "u64")] + [("a_" + k, k) for k in ALL[8:]]),
    ("WholeNull", "whole_null", "id", True, {}, [("id", "u64")] + [("o_" + k, k + "?") for k in ALL[:8]]),
    ("OtherNull", "other_null", "id", True, {}, [("id", "u64")] + [("o_" + k, k + "?") for k in ALL[8:]]),
    ("Placed", "placed", "id", True,
     {"Vec3": ["x", ("y", "lat"), "z"], "geo::Point": [("lat", "north"), ("lon", "east")]},
     [("id", "i64"), ("title", "str"), ("pos", "Vec3"), ("heading", "f32"), ("home", "geo::Point"), ("area", "World"), ("pos_", "Vec3"), ("kind", "i8")]),
    ("Prefix", "pre", "key", False, {}, [("map", "Leaf"), ("key", "u16"), ("ma", "World"), ("map2", "World"), ("m", "Leaf"), ("name", "str?")]),
    ("Two", "two", "id", True, {"Point": ["lat", "lon"], "geo::Point": [("lat", "y"), ("lon", "x")]}, [("id", "u32"), ("from", "geo::Point"), ("to", "Point"), ("via", "geo::Point")]),
    ("DeepC", "deep_c", "id", True, {}, [("id", "u32"), ("name", "str")]),
    ("DeepB", "deep_b", "id", False, {"Pair": ["a", "b"]}, [("id", "u32"), ("c", "DeepC"), ("p", "Pair"), ("name", "str")]),
    ("DeepA", "deep_a", "id", True, {}, [("id", "u32"), ("name", "str"), ("b", "DeepB")]),
    ("Deep", "deep", "id", True, {}, [("id", "u32"), ("a", "DeepA"), ("name", "str"), ("b", "DeepB")]),
    ("Kid", "kid", "id", True, {}, [("id", "u16"), ("name", "str"), ("pet", "Leaf")]),
    ("Parent", "parent", "id", True, {}, [("id", "u32"), ("name", "str"), ("parent", "Kid")]),
    ("Chain", "link", "id", True, {}, [("id", "u32"), ("link", "Kid")]),
    ("Chained", "chained", "id", True, {}, [("id", "u32"), ("chain", "Chain"), ("link", "Leaf")]),
    ("Raw", "with space", "id", True, {"Vec3": ["x", ("y", "yy"), "z"]}, [("id", "u32"), ("r#type", "str"), ("r#match", "Leaf"), ("r#in", "bool"), ("r#mod", "Vec3"), ("mo", "Vec3")]),
]
BY = {m[0]: m for m in M}


def plain(f):
    return f[2:] if f.startswith("r#") else f


def members(m, k):
    """(member, column suffix, kind) of a struct field."""
    kinds = dict(STRUCTS[k])
    return [((x, x) if isinstance(x, str) else (x[0], plain(x[1]))) + (kinds[x if isinstance(x, str) else x[0]],) for x in m[4][k]]


def lib():
    o = ["// Written by tools/gen24.py: models for the derive macros.", "#![allow(dead_code, unused_imports)]",
         "use {chrono::{Duration, NaiveDate, NaiveDateTime}, mysql_connector::{macros::*, model::*, types::Hex}};", ""]
    for s, f in STRUCTS.items():
        body = "#[derive(Debug, Clone, PartialEq)]\npub struct %s { %s }" % (s.split("::")[-1], ", ".join(f"pub {a}: {ty(b)}" for a, b in f))
        if "::" in s:
            body = f"pub mod {s.split('::')[0]} {{\n{body}\n}}"
        o.append(body)
    for name, table, prim, auto, structs, fields in M:
        t = "".join(", ty = %s{%s}" % (s, ", ".join(x if isinstance(x, str) else f"{x[0]}: {x[1]}" for x in v)) for s, v in structs.items())
        o.append(f'#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]\n'
                 f'#[mysql_connector(table = "{table}", primary = "{prim}", auto_increment = "{str(auto).lower()}"{t})]\n'
                 f"pub struct {name} {{\n" + "".join(f"    pub {f}: {k if k in BY or k in STRUCTS else ty(k)},\n" for f, k in fields) + "}")
    return "\n".join(o) + "\n"


def harness():
    o = ["// Written by tools/gen24.py: what each of the sample models must do.",
         "use {super::*, samples::*, mysql_connector::model::{ActiveReference, ActiveValue, HasActiveModel, Model}};", ""]
    for m in M:
        name, table, prim, auto, structs, fields = m
        mk, fill, joins, all_ = [], [], [], []
        for f, k in fields:
            p = plain(f)
            if k in BY:
                c = BY[k]
                mk.append(f'{f}: <{k} as Sample>::make(rng, &at(alias, "{p}"), out)')
                joins.append(f'out.push((alias.into(), "{p}".into(), at(alias, "{p}"), "{c[1]}".into(), "{c[2]}".into())); <{k} as Sample>::joins(&at(alias, "{p}"), out);')
                keykind = dict((plain(a), b) for a, b in c[5])[c[2]]
                fill.append(f'match rng.below(4) {{ 0 => {{}}, 1 => {{ let (x, v) = <{ty(keykind)} as Kind>::gen(rng); a.{f} = ActiveReference::Set(x); t.push("{p}", v); }}, '
                            f'_ => {{ let mut b = {k}::active_model(); let c = <{k} as Sample>::fill(&mut b, rng); a.{f} = ActiveReference::Insert(b); t.insert("{p}", c); }} }}')
                all_.append(f't.insert("{p}", self.{f}.whole());')
            elif k in STRUCTS:
                ms = members(m, k)
                mk.append(f"{f}: {k} {{ " + ", ".join(f'{a}: leaf(rng, alias, "{p}_{b}", out)' for a, b, kk in ms) + " }")
                fill.append("if rng.chance(4) {} else { let mut v = Vec::new(); a.%s = ActiveValue::Set(%s { %s }); t.extend(v); }" % (
                    f, k, ", ".join(f'{a}: leaf(rng, "", "{p}_{b}", &mut v)' for a, b, kk in ms)))
                all_ += [f't.push("{p}_{b}", Kind::value(&self.{f}.{a}));' for a, b, kk in ms]
            else:
                mk.append(f'{f}: leaf(rng, alias, "{p}", out)')
                rec = "t.primary = Some(v.clone()); " if p == prim else ""
                fill.append(f'if rng.chance(3) {{}} else {{ let (x, v) = <{ty(k)} as Kind>::gen(rng); a.{f} = ActiveValue::Set(x); {rec}t.push("{p}", v); }}')
                if p == prim and auto:
                    continue
                if p == prim:
                    all_.append(f"t.primary = Some(Kind::value(&self.{f}));")
                all_.append(f't.push("{p}", Kind::value(&self.{f}));')
        pf = [f for f, k in fields if plain(f) == prim][0]
        o.append(f"""impl Sample for {name} {{
    const NAME: &'static str = "{name}";
    const TABLED: &'static str = "{table}";
    const KEY: &'static str = "{prim}";
    const AUTO: bool = {str(auto).lower()};
    #[allow(unused_variables)]
    fn make(rng: &mut Rng, alias: &str, out: &mut Cells) -> Self {{ {name} {{ {", ".join(mk)} }} }}
    #[allow(unused_variables)]
    fn joins(alias: &str, out: &mut Vec<Join>) {{ {" ".join(joins)} }}
    fn fill(a: &mut <Self as HasActiveModel>::ActiveModel, rng: &mut Rng) -> Tree {{
        let mut t = Tree::new("{table}");
        {chr(10).join("        " + x for x in fill).strip()}
        t
    }}
    fn whole(&self) -> Tree {{
        let mut t = Tree::new("{table}");
        {" ".join(all_)}
        t
    }}
    fn key(&self) -> Value {{ Kind::value(&self.{pf}) }}
}}""")
    o.append("pub fn each(cx: &mut Ctx) {\n" + "".join(f"    model::<{m[0]}>(cx);\n" for m in M) + "}")
    return "\n".join(o) + "\n"


CONV = {**{k: k for k in KIND}, "str": "string", "dur": "duration"}


def conv(k):
    if k.startswith("hex"):
        return "vx_into_hex" + ("_opt" if k.endswith("?") else "")
    return "vx_into_" + ("opt_" if k.endswith("?") else "") + CONV[k.rstrip("?")]


def own(m):
    """(field of the mapping, column, kind, where in the model) of every column that is not a reference, in the order of the columns."""
    r = [(f, plain(f), k, f) for f, k in m[5] if k not in BY and k not in STRUCTS]
    for f, k in m[5]:
        if k in STRUCTS:
            r += [(f"{plain(f)}_{b}", f"{plain(f)}_{b}", kk, f"{f}.{a}") for a, b, kk in members(m, k)]
    return r


def refs(m):
    return [(f, plain(f), k) for f, k in m[5] if k in BY]


def size(m):
    return len(own(m)) + sum(size(BY[k]) for _, _, k in refs(m))


def flat(m):
    """Where in the mapping each of the fields is."""
    return [f.replace("r#", "vx_") for f, _, _, _ in own(m)] + [f.replace("r#", "vx_") + "." + x for f, _, k in refs(m) for x in flat(BY[k])]


def apart(names):
    """Two texts of the same length differ somewhere: where."""
    o = []
    for i, a in enumerate(names):
        for b in names[:i]:
            if len(a) == len(b):
                d = next(j for j in range(len(a)) if a[j] != b[j])
                o.append(f'assert("{a}"@[{d}] != "{b}"@[{d}]);')
    return o


def spec(m):
    name, table = m[0], m[1]
    mp, low = name + "Mapping", name.lower()
    # raw identifiers are renamed by the extraction
    vx = lambda f: f.replace("r#", "vx_")
    ow, rf = [(vx(f), c, k, vx(w)) for f, c, k, w in own(m)], [(vx(f), g, k) for f, g, k in refs(m)]
    p = len(ow)
    offs, n = [], p
    for _, _, k in rf:
        offs.append(n)
        n += size(BY[k])
    lits = sorted({c for _, c, _, _ in ow} | {g for _, g, _ in rf})
    reveal = " ".join(f'reveal_strlit("{x}"); assert("{x}"@.len() == {len(x)});' for x in lits)
    nodots = " ".join(f'assert(no_dot("{g}"@));' for _, g, _ in rf)
    diff = " ".join(apart([c for _, c, _, _ in ow]))
    rdiff = " ".join(apart([g for _, g, _ in rf]))
    o = [f"%type {name}", f"%type {mp}", "%raw", f"impl VxMaps for {mp} {{",
         f'    open spec fn table() -> Seq<char> {{ "{table}"@ }}',
         "    open spec fn leaves() -> Seq<Leaf_> { seq![" + ", ".join(f'own("{c}"@)' for _, c, _, _ in ow) + "]" + "".join(f' + below("{g}"@, {k}Mapping::leaves())' for _, g, k in rf) + " }",
         f"    open spec fn size() -> nat {{ {n} }}",
         "    proof fn sized() { " + " ".join(f"{k}Mapping::sized();" for _, _, k in rf) + " }",
         f"    open spec fn fresh() -> Self {{ {mp} {{ " + ", ".join([f"{f}: None" for f, _, _, _ in ow] + [f"{f}: {k}Mapping::fresh()" for f, _, k in rf]) + " } }",
         "    open spec fn stepped(self, name: Seq<char>, path: Seq<char>, i: usize) -> Self {",
         "        " + "".join(f'if path == "{g}"@ {{ {mp} {{ {f}: self.{f}.stepped(name, seq![], i), ..self }} }} else if dotted("{g}"@).is_prefix_of(path) {{ {mp} {{ {f}: self.{f}.stepped(name, path.skip({len(g) + 1}), i), ..self }} }}\n        else ' for f, g, k in rf)
         + "".join(f'if name == "{c}"@ {{ {mp} {{ {f}: Some(i), ..self }} }} else ' for f, c, _, _ in ow) + "{ self }",
         "    }",
         "    open spec fn got(self, k: int) -> Option<usize> {",
         "        " + "".join(f"if k == {i} {{ self.{f} }} else " for i, (f, _, _, _) in enumerate(ow)) + "".join(f"if {a} <= k < {a + size(BY[k])} {{ self.{f}.got(k - {a}) }} else " for (f, _, k), a in zip(rf, offs)) + "{ None }",
         "    }",
         "    proof fn none() {",
         "        Self::sized(); " + " ".join(f"{k}Mapping::sized(); {k}Mapping::none();" for _, _, k in rf),
         "    }",
         "    #[verifier::spinoff_prover]", "    proof fn one(m: Self, k: int, i: usize) {",
         f"        Self::sized(); {reveal} {diff} {rdiff} {nodots}",
         "        " + " ".join(f"{k}Mapping::sized();" for _, _, k in rf)]
    o.append("        " + " ".join(f'lemma_top("{g}"@);' for _, g, _ in rf))
    for i, (f, c, _, _) in enumerate(ow):
        o.append(f"        {'else ' if i else ''}if k == {i} {{ assert(Self::leaves()[{i}] == own(\"{c}\"@)); assert(m.stepped(\"{c}\"@, seq![], i) == {mp} {{ {f}: Some(i), ..m }}); }}")
    for j, ((f, g, k), a) in enumerate(zip(rf, offs)):
        o += [f"        else if k < {a + size(BY[k])} {{",
              f"            let l = {k}Mapping::leaves()[k - {a}];",
              f'            assert(Self::leaves()[k] == below("{g}"@, {k}Mapping::leaves())[k - {a}]);',
              f'            lemma_under("{g}"@, l.path);']
        o += [f'            assert("{g}"@ != "{h}"@); lemma_other("{g}"@, "{h}"@, l.path);' for _, h, _ in rf[:j]]
        o += [f"            {k}Mapping::one(m.{f}, k - {a}, i);",
              f"            if l.path.len() == 0 {{ assert(l.path =~= seq![]); }}",
              f"            assert(m.stepped(Self::leaves()[k].name, Self::leaves()[k].path, i) == {mp} {{ {f}: m.{f}.stepped(l.name, l.path, i), ..m }});",
              "        }"]
    o += ["    }", "}",
          f"/// What the model holds is what the row's values for its fields convert to.",
          f"pub open spec fn {low}_filled(m: {mp}, row: Seq<Value>, v: {name}) -> bool {{"]
    o += [f"    &&& m.{f} is Some && call_ensures(Value::{conv(k)}, (row[m.{f}->Some_0 as int],), Ok(v.{w}))" for f, _, k, w in ow]
    o += [f"    &&& {k.lower()}_filled(m.{f}, row, v.{f})" for f, _, k in rf]
    o += ["}", f"/// One of the values is not one of its field.", f"pub open spec fn {low}_unread(m: {mp}, row: Seq<Value>) -> bool {{"]
    o += [f"    ||| {conv(k).replace('vx_into', 'no')}(row[m.{f}->Some_0 as int])" for f, _, k, w in ow]
    o += [f"    ||| {k.lower()}_unread(m.{f}, row)" for f, _, k in rf]
    o += ["}", f"pub open spec fn {low}_columns(c: Seq<QueryColumn>) -> bool {{", f"    &&& c.len() == {p + len(rf)}"]
    o += [f'    &&& c[{i}] is Column && c[{i}]->Column_0@ == "{c}"@' for i, (_, c, _, _) in enumerate(ow)]
    o += [f'    &&& c[{p + i}] is Reference && c[{p + i}]->Reference_0.column@ == "{g}"@ && c[{p + i}]->Reference_0.table@ == "{BY[k][1]}"@ && c[{p + i}]->Reference_0.key@ == "{BY[k][2]}"@ && {k.lower()}_columns(c[{p + i}]->Reference_0.columns@)' for i, (_, g, k) in enumerate(rf)]
    o += ["}"]
    # the two tables' names and the key
    o += [f"%fn <{name} as ModelData>::TABLE as {low}_table", f"    ensures r@ == {mp}::table()",
          f"%fn <{name} as ModelData>::TABLE_WITH_POINT as {low}_table_dot", f"    ensures r@ == dotted({mp}::table())", "%at tail",
          f'    proof {{ reveal_strlit("{table}"); reveal_strlit("{table}."); assert("{table}."@ =~= dotted("{table}"@)); }}',
          f"%fn <{name} as Model>::PRIMARY as {low}_primary", f'    ensures r@ == "{m[2]}"@',
          f"%fn <{name} as IntoQuery>::COLUMNS as {low}_columns_", f"    ensures {low}_columns(r@)"]
    for k in sorted({k for _, _, k in rf}):
        c, pre = k.lower(), f"<{k} as mysql_connector::model::"
        o += [f"%rw {pre}ModelData> ::TABLE => {c}_table()", f"%rw {pre}Model> ::PRIMARY => {c}_primary()", f"%rw {pre}IntoQuery> ::COLUMNS => {c}_columns_()"]
    # nothing mapped
    o += [f"%fn <{mp} as Default>::default as vx_fresh", f"    ensures r == Self::fresh()"]
    o += [f"%rw {f}: ::core::default::Default::default() => {f}: {k}Mapping::vx_fresh()" for f, _, k in refs(m)]
    o += ["%rw ::core::default::Default::default() => None"]
    o += [f"%fn <{mp} as FromQueryResultMapping<{name}>>::set_mapping_inner as vx_set", f"    ensures *final(self) == old(self).stepped(column.org_name@, table@, index)"]
    for f, g, k in rf:
        o += [f'%rw table.starts_with("{g}.") => vx_starts_with(table, "{g}.")']
    for x in sorted({len(g) + 1 for _, g, _ in rf}):
        o += [f"%rw &table[{x}usize..] => vx_str_after(table, {x}usize, Ghost({x}))"]
    for f, g, k in refs(m):
        o += [f"%rw self.{f}.set_mapping_inner => self.{f}.vx_set"]
    o += ["%attr #[verifier::spinoff_prover]"]
    if rf:
        o += ["%at entry", "    proof {", '        reveal_strlit("");  assert(""@ =~= seq![]);']
        for f, g, k in rf:
            x = len(g) + 1
            o += [f'        reveal_strlit("{g}"); reveal_strlit("{g}."); assert("{g}."@ =~= dotted("{g}"@)); vstd::utf8::is_ascii_chars_encode_utf8("{g}."@);',
                  f'        if dotted("{g}"@).is_prefix_of(table@) {{ assert(table@.take({x}) =~= "{g}."@); assert(bytes_of(table@.take({x})) == {x}); }}']
        o += ["    }"]
    o += [f"%fn <{name} as FromQueryResult>::from_mapping_and_row as vx_{low}",
          f"    requires usable(*mapping, old(row)@.len())",
          f"    ensures r is Ok ==> complete(*mapping) && {low}_filled(*mapping, old(row)@, r->Ok_0) && rest_kept(*mapping, old(row)@, final(row)@),",
          f"        r is Err ==> !complete(*mapping) || {low}_unread(*mapping, old(row)@),"]
    o += ["%attr #[verifier::spinoff_prover]", "%rw .try_into() => .vx_try()"]
    for k in sorted({k for _, _, k in rf}):
        o += [f"%rw <{k}> ::from_mapping_and_row => {k}::vx_{k.lower()}"]
    o += ["%at entry", "    proof {", f"        {mp}::sized(); " + " ".join(f"{k}Mapping::sized();" for _, _, k in rf)]
    o += [f"        assert(mapping.got({i}) == mapping.{f});" for i, f in enumerate(flat(m))]
    for (f, g, k), a in zip(rf, offs):
        s = size(BY[k])
        o += [f"        assert forall|k: int| 0 <= k < {s} implies #[trigger] mapping.{f}.got(k) == mapping.got({a} + k) by {{ }}",
              f"        assert(usable(mapping.{f}, row@.len())) by {{",
              f"            assert forall|k: int| 0 <= k < {s} && (#[trigger] mapping.{f}.got(k)) is Some implies mapping.{f}.got(k)->Some_0 < row@.len() by {{ assert(mapping.got({a} + k) is Some); }}",
              f"            assert forall|j: int, k: int| 0 <= j < k < {s} && (#[trigger] mapping.{f}.got(j)) is Some implies mapping.{f}.got(j) != #[trigger] mapping.{f}.got(k) by {{ assert(mapping.got({a} + j) is Some); assert(mapping.got({a} + k) != mapping.got({a} + j)); }}",
              "        }",
              f"        assert forall|i: int| meant(mapping.{f}, i) implies #[trigger] meant(*mapping, i) by {{ let k = choose|k: int| 0 <= k < {s} && (#[trigger] mapping.{f}.got(k)) is Some && mapping.{f}.got(k)->Some_0 == i; assert(mapping.got({a} + k) is Some); }}",
              f"        if complete(*mapping) {{ assert forall|k: int| 0 <= k < {s} implies (#[trigger] mapping.{f}.got(k)) is Some by {{ assert(mapping.got({a} + k) is Some); }} }}"]
    o += ["    }"]
    return "\n".join(o) + "\n"


def derive():
    o = ["%# Written by tools/gen24.py: what the code generated for the sample models must do.", "%use maps conv", "%type QueryColumnReference", "%type QueryColumn",
         "%path geo::Point => GeoPoint",
         *[f"%path mysql_connector::{x} => {x.split('::')[-1]}" for x in ("model::QueryColumn", "model::QueryColumnReference", "types::Value", "types::Column", "error::ParseError")], "%type Hex"]
    o += [f"%type samples::{s} as=GeoPoint" if "::" in s else f"%type samples::{s} as={s}" for s in STRUCTS]
    o += [f"%ty <{m[0]}asmysql_connector::model::FromQueryResult>::Mapping => {m[0]}Mapping" for m in M]
    o += ["""%raw
#[verifier::external_body]
pub fn vx_leak<const N: usize>(a: [QueryColumn; N]) -> (r: &'static [QueryColumn]) ensures r@ == a@ { unimplemented!() }
/// Conversions of a value, chosen by the type of the field.
pub trait VxInto<T>: Sized {
    spec fn tried(self, r: Result<T, ParseError>) -> bool;
    fn vx_try(self) -> (r: Result<T, ParseError>) ensures self.tried(r);
}"""]
    for k in ALL:
        for q in ("", "?"):
            t = ty(k + q).replace("Duration", "VDuration")
            c = conv(k + q)
            o.append(f"impl VxInto<{t}> for Value {{ open spec fn tried(self, r: Result<{t}, ParseError>) -> bool {{ call_ensures(Value::{c}, (self,), r) }} fn vx_try(self) -> (r: Result<{t}, ParseError>) {{ self.{c}() }} }}\n"
                     f"pub open spec fn {c.replace('vx_into', 'no')}(v: Value) -> bool {{ exists|e: ParseError| #[trigger] call_ensures(Value::{c}, (v,), Err(e)) }}")
    o += ["%fn <Value as TryInto<Hex>>::try_into as vx_into_hex", "    ensures r is Ok <==> self is Bytes, r is Ok ==> r->Ok_0.0 == self->Bytes_0",
          "%fn <Value as TryInto<Option<Hex>>>::try_into as vx_into_hex_opt",
          "    ensures r is Ok <==> self is Bytes || self is Null, r is Ok ==> r->Ok_0 == match self { Value::Null => None, Value::Bytes(b) => Some(Hex(b)), _ => r->Ok_0 }",
          "%rw x.try_into() => x.vx_into_hex()"]
    return "\n".join(o) + "\n" + "".join(spec(m) for m in M)


RAWVAL = {"i8": "Tiny", "i16": "Short", "i32": "Int", "i64": "Long", "u8": "UTiny", "u16": "UShort", "u32": "UInt", "u64": "ULong", "f32": "Float", "f64": "Double"}


def save(m):
    """The active model of a model."""
    name, table, prim, auto = m[:4]
    low, am = name.lower(), name + "ActiveModel"
    vx = lambda f: f.replace("r#", "vx_")
    simple = [(vx(f), plain(f), k) for f, k in m[5] if k not in BY and k not in STRUCTS]
    structs = [(vx(f), plain(f), k) for f, k in m[5] if k in STRUCTS]
    rf = [(vx(f), g, k) for f, g, k in refs(m)]
    pk = dict((plain(f), k) for f, k in m[5])[prim]
    pf = vx([f for f, k in m[5] if plain(f) == prim][0])
    # the order in which the columns are given: plain fields, structs, references
    steps = [(f, 1) for f, _, _ in simple] + [(f, len(m[4][k])) for f, _, k in structs] + [(f, 1) for f, _, _ in rf]
    o = [f"%type {name}", f"%type {am}", f"%fn <{name} as ModelData>::TABLE as {low}_table", f'    ensures r@ == "{table}"@',
         f"%fn <{name} as Model>::PRIMARY as {low}_primary", f'    ensures r@ == "{prim}"@',
         f"%fn <{name} as Model>::primary as vx_key", f"    ensures r == self.{pf}", "%raw",
         f"/// The columns this active model gives: those set, each its value, in order.",
         f"pub open spec fn {low}_gives(a: {am}, v: Seq<NamedValue>) -> bool {{", "    let n0 = 0int;"]
    for i, (f, w) in enumerate(steps):
        o.append(f"    let n{i + 1} = n{i} + (if a.{f} is Unset {{ 0int }} else {{ {w} }});")
    o.append(f"    &&& v.len() == n{len(steps)}")
    i = 0
    for f, c, k in simple:
        o.append(f'    &&& a.{f} is Set ==> v[n{i}].0@ == "{c}"@ && a.{f}->Set_0.gave(Ok(v[n{i}].1))')
        i += 1
    for f, c, k in structs:
        for j, (a, b, kk) in enumerate(members(m, k)):
            o.append(f'    &&& a.{f} is Set ==> v[n{i} + {j}].0@ == "{c}_{b}"@ && a.{f}->Set_0.{vx(a)}.gave(Ok(v[n{i} + {j}].1))')
        i += 1
    for f, c, k in rf:
        o.append(f'    &&& !(a.{f} is Unset) ==> v[n{i}].0@ == "{c}"@ && stands_for(a.{f}, v[n{i}].1)')
        i += 1
    o += ["}", "/// Nothing is set.", f"pub open spec fn {low}_blank(a: {am}) -> bool {{ " + " && ".join(f"a.{f} is Unset" for f, _ in steps) + " }",
          "/// Something set is not a value of the database, or a model referred to could not be inserted.",
          f"pub open spec fn {low}_unwritable(a: {am}) -> bool {{"]
    o += [f"    ||| a.{f} is Set && ungiven(a.{f}->Set_0)" for f, _, _ in simple]
    o += [f"    ||| a.{f} is Set && ungiven(a.{f}->Set_0.{vx(a)})" for f, _, k in structs for a, _, _ in members(m, k)]
    o += [f"    ||| a.{f} is Insert" for f, _, _ in rf]
    o += ["}", "/// All of the model is set, but for a key that the database chooses.", f"pub open spec fn {low}_all(a: {am}, m: {name}) -> bool {{"]
    for f, c, k in simple:
        o.append(f"    &&& a.{f} is Unset" if c == prim and auto else f"    &&& a.{f} == ActiveValue::Set(m.{f})")
    o += [f"    &&& a.{f} == ActiveValue::Set(m.{f})" for f, _, _ in structs]
    o += [f"    &&& a.{f} is Insert && {k.lower()}_all(a.{f}->Insert_0, m.{f})" for f, _, k in rf]
    o += ["}",
          f'impl VxTabled for {name} {{ open spec fn table() -> Seq<char> {{ "{table}"@ }} }}',
          f"impl Model for {name} {{",
          f"    type Primary = {ty(pk)};", f"    type ActiveModel = {am};",
          f'    open spec fn primary_key() -> Seq<char> {{ "{prim}"@ }}',
          f"    fn vx_table() -> (r: &'static str) {{ {low}_table() }}",
          f"    fn vx_primary() -> (r: &'static str) {{ {low}_primary() }}",
          "}",
          f"impl VxGives<{name}> for {am} {{",
          f"    open spec fn gives(self, v: Seq<NamedValue>) -> bool {{ {low}_gives(self, v) }}",
          f"    fn into_values(self, conn: &mut Connection) -> (r: Result<Vec<NamedValue>, Error>) {{ self.vx_values(conn) }}",
          f"    open spec fn keyed(self) -> Option<Value> {{ match self.{pf} {{ ActiveValue::Set(x) => Some(x.vx_value()), ActiveValue::Unset => None }} }}",
          f"    fn primary(&self) -> (r: Option<Value>) {{ self.vx_primary() }}",
          f"    open spec fn blank(self) -> bool {{ {low}_blank(self) }}",
          f"    proof fn blank_gives(self, v: Seq<NamedValue>) {{ }}",
          f"    fn vx_default() -> (r: Self) {{ {am}::vx_blank() }}",
          "    #[verifier::external_body]",
          "    fn insert(self, conn: &mut Connection) -> (r: Result<u64, Error>) { unimplemented!() }",
          "}",
          f"%fn <{am} as Default>::default as vx_blank", f"    ensures {low}_blank(r)"]
    names = {vx(f): f for f, _ in m[5]}
    o += [f"%rw {names[f]}: ::core::default::Default::default() => {names[f]}: ActiveReference::vx_unset()" for f, _, _ in rf]
    o += ["%rw ::core::default::Default::default() => ActiveValue::vx_unset()",
          f"%fn <{am} as ActiveModel<{name}>>::primary as vx_primary", f"    ensures r == self.keyed()", "%rw x.into() => x.vx_into()",
          f"%fn <{name} as HasActiveModel>::into_active_model as vx_active", f"    ensures {low}_all(r, self)"]
    for k in sorted({k for _, _, k in rf}):
        o.append(f"%rw <{k} as mysql_connector::model::HasActiveModel> ::into_active_model => {k}::vx_active")
    o += [f"%fn <{am} as ActiveModel<{name}>>::into_values as vx_values", f"    ensures r is Ok ==> {low}_gives(self, r->Ok_0@), r is Err ==> {low}_unwritable(self)",
          "%attr #[verifier::spinoff_prover]"]
    o += [f"%rw self.{names[f]}.insert_named_value => self.{names[f]}.vx_put" for f, _, _ in simple]
    if structs:
        o.append("%rw .try_into().map_err(Into:: <mysql_connector::error::SerializeError> ::into) => .vx_give()")
    return "\n".join(o) + "\n"


def saved():
    o = ["%# Written by tools/gen24.py: what saving an active model of each sample writes.", "%use active conv",
         "%path geo::Point => GeoPoint",
         *[f"%path mysql_connector::{x} => {x.split('::')[-1]}" for x in ("model::ActiveValue", "model::ActiveReference", "model::NamedValue", "types::Value", "error::Error", "error::SerializeError", "Connection")], "%type Hex"]
    o += [f"%type samples::{s} as=GeoPoint" if "::" in s else f"%type samples::{s} as={s}" for s in STRUCTS]
    o += ["""%raw
/// The conversion of a field into a value, chosen by its type.
pub trait VxGive: Sized {
    spec fn gave(self, r: Result<Value, SerializeError>) -> bool;
    fn vx_give(self) -> (r: Result<Value, SerializeError>) ensures self.gave(r);
}
pub open spec fn ungiven<T: VxGive>(x: T) -> bool { exists|e: SerializeError| x.gave(Err(e)) }
/// The value a reference is given: the key it was set to or the one of the model that was inserted.
pub open spec fn stands_for<T: Model>(a: ActiveReference<T>, v: Value) -> bool {
    match a {
        ActiveReference::Set(id) => v == id.vx_value(),
        ActiveReference::Insert(m) => exists|w: Seq<NamedValue>, id: u64, c: Connection| #[trigger] m.gives(w) && #[trigger] inserted(c, w, T::table(), id)
            && v == (match m.keyed() { Some(k) => k, None => Value::ULong(id) }),
        ActiveReference::Unset => false,
    }
}"""]
    for k in RAWVAL:
        o.append(f"impl VxGive for {k} {{ open spec fn gave(self, r: Result<Value, SerializeError>) -> bool {{ r == Ok::<Value, SerializeError>(Value::{RAWVAL[k]}(self)) }} fn vx_give(self) -> (r: Result<Value, SerializeError>) {{ Ok(Value::from(self)) }} }}")
    o.append("impl VxGive for bool { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Tiny(if self { 1 } else { 0 })) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }")
    o.append("impl VxGive for Vec<u8> { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { r == Ok::<Value, SerializeError>(Value::Bytes(self)) } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Ok(Value::from(self)) } }")
    for k, c in (("String", "string"), ("VDuration", "duration"), ("Hex", "hex")):
        o.append(f"impl VxGive for {k} {{ open spec fn gave(self, r: Result<Value, SerializeError>) -> bool {{ r is Ok && call_ensures(Value::vx_from_{c}, (self,), r->Ok_0) }} fn vx_give(self) -> (r: Result<Value, SerializeError>) {{ Ok(Value::vx_from_{c}(self)) }} }}")
    for k, c in (("NaiveDate", "date"), ("NaiveDateTime", "datetime")):
        o.append(f"impl VxGive for {k} {{ open spec fn gave(self, r: Result<Value, SerializeError>) -> bool {{ call_ensures(Value::vx_from_{c}, (self,), r) }} fn vx_give(self) -> (r: Result<Value, SerializeError>) {{ Value::vx_from_{c}(self) }} }}")
    o.append("impl<T: VxGive> VxGive for Option<T> { open spec fn gave(self, r: Result<Value, SerializeError>) -> bool { match self { None => r == Ok::<Value, SerializeError>(Value::Null), Some(x) => x.gave(r) } } fn vx_give(self) -> (r: Result<Value, SerializeError>) { Value::vx_give_option(self) } }")
    for k in sorted({dict((plain(a), b) for a, b in m[5])[m[2]] for m in M} - {"u64"}):
        o.append(f"impl VxIntoValue for {k} {{ open spec fn vx_value(self) -> Value {{ Value::{RAWVAL[k]}(self) }} fn vx_into(self) -> (r: Value) {{ self.into() }} }}")
    o += ["%fn <Value as From<Hex>>::from as vx_from_hex", "    ensures r == Value::Bytes(value.0)",
          "%fn <Value as TryFrom<Option<T>>>::try_from as vx_give_option", "    ensures value.gave(r)", "%where T: VxGive", "%ret Result<Value, SerializeError>", "%rw value.try_into() => value.vx_give()",
          "%fn ActiveValue::insert_named_value as vx_put",
          "    ensures self is Unset ==> r is Ok && final(vec)@ == old(vec)@,",
          "        r is Err ==> self is Set && ungiven(self->Set_0),",
          "        r is Ok ==> grown(old(vec)@, final(vec)@, if self is Unset { 0 } else { 1 }),",
          "        self is Set && r is Ok ==> final(vec)@[old(vec)@.len() as int].0@ == name@ && self->Set_0.gave(Ok(final(vec)@[old(vec)@.len() as int].1))",
          "%where T: VxGive", "%rw value.try_into().map_err(Into::into) => value.vx_give()",
          "%fn <ActiveValue<T> as Default>::default as vx_unset", "    ensures r is Unset",
          "%fn <ActiveReference<T> as Default>::default as vx_unset", "    ensures r is Unset"]
    return "\n".join(o) + "\n" + "".join(save(m) for m in M)


if __name__ == "__main__":
    for f, t in (("samples/src/lib.rs", lib()), ("harness/src/c24_models.rs", harness()), ("specs/derive.vs", derive()), ("specs/saved.vs", saved())):
        f = os.path.join(V, f)
        if not os.path.exists(f) or open(f).read() != t:
            open(f, "w").write(t)
