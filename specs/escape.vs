%# String literals and identifiers.
%use fmt
%type StringEscape
%type IdentifierEscape
%type UnquotedIdentifierEscape
%raw
/// What MySQL reads for a backslash followed by `c` (the manual's table of escape sequences; `\%` and `\_` keep the backslash).
pub open spec fn escape_means(c: char) -> Seq<char> {
    if c == '0' { seq!['\0'] } else if c == 'b' { seq!['\u{8}'] } else if c == 'n' { seq!['\n'] } else if c == 'r' { seq!['\r'] }
    else if c == 't' { seq!['\t'] } else if c == 'Z' { seq!['\u{1a}'] } else if c == '%' { seq!['\\', '%'] } else if c == '_' { seq!['\\', '_'] }
    else { seq![c] }
}
/// What the text between two double quotes denotes, or None if it is not the inside of exactly one literal.
#[verifier::opaque]
pub open spec fn literal(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == '"' {
        if s.len() > 1 && s[1] == '"' { match literal(s.skip(2)) { Some(t) => Some(seq!['"'] + t), None => None } } else { None }
    }
    else if s[0] == '\\' {
        if s.len() > 1 { match literal(s.skip(2)) { Some(t) => Some(escape_means(s[1]) + t), None => None } } else { None }
    }
    else { match literal(s.skip(1)) { Some(t) => Some(seq![s[0]] + t), None => None } }
}
/// Literals written one after the other denote their strings one after the other.
pub proof fn lemma_literal_join(a: Seq<char>, b: Seq<char>)
    requires literal(a) is Some, literal(b) is Some
    ensures literal(a + b) == Some(literal(a)->Some_0 + literal(b)->Some_0)
    decreases a.len()
{
    reveal(literal);
    if a.len() == 0 { assert(a + b =~= b); assert(literal(a)->Some_0 + literal(b)->Some_0 =~= literal(b)->Some_0); }
    else {
        let k = if a[0] == '"' || a[0] == '\\' { 2int } else { 1int };
        lemma_literal_join(a.skip(k), b);
        assert((a + b).skip(k) =~= a.skip(k) + b);
        let h = if a[0] == '"' { seq!['"'] } else if a[0] == '\\' { escape_means(a[1]) } else { seq![a[0]] };
        let x = literal(a.skip(k))->Some_0; let y = literal(b)->Some_0;
        assert(h + (x + y) =~= (h + x) + y);
        assert((a + b)[0] == a[0]);
        if k == 2 { assert((a + b)[1] == a[1]); }
    }
}
/// MySQL reads Control+Z for `\Z` only: `\z` is the letter (known finding c13-sub), so it is excepted here.
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '\u{1a}' }
/// `t` is the inside of one literal, and it denotes `s`.
#[verifier::opaque]
pub open spec fn inside(t: Seq<char>, s: Seq<char>) -> bool {
    literal(t) is Some && (plain(s) ==> literal(t)->Some_0 == s)
}
pub proof fn lemma_inside_char(t: Seq<char>, s: Seq<char>, d: Seq<char>, c: char)
    requires inside(t, s), literal(d) is Some, c == '\u{1a}' || literal(d)->Some_0 == seq![c]
    ensures inside(t + d, s.push(c))
{
    reveal(inside);
    lemma_literal_join(t, d);
    if plain(s.push(c)) {
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '\u{1a}' by { assert(s.push(c)[i] == s[i]); }
        assert(s.push(c)[s.len() as int] == c);
        assert(s + seq![c] =~= s.push(c));
    }
}
/// One character, alone or after a backslash.
pub proof fn lemma_one(c: char)
    ensures
        c != '"' && c != '\\' ==> literal(seq![c]) == Some(seq![c]),
        literal(seq!['\\', c]) == Some(escape_means(c)),
        literal(seq!['"', '"']) == Some(seq!['"']),
{
    reveal_with_fuel(literal, 3);
    assert(seq![c].skip(1) =~= Seq::empty());
    assert(seq!['\\', c].skip(2) =~= Seq::empty());
    assert(seq!['"', '"'].skip(2) =~= Seq::empty());
    assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
    assert(escape_means(c) + Seq::<char>::empty() =~= escape_means(c));
    assert(seq!['"'] + Seq::<char>::empty() =~= seq!['"']);
}
pub open spec fn says(w: Seq<char>, o: Seq<char>, c: char) -> bool {
    ||| c != '"' && c != '\\' && w == o.push(c)
    ||| c == '"' && w == o.push('"').push('"')
    ||| w == o.push('\\').push(w.last()) && (c == '\u{1a}' || escape_means(w.last()) == seq![c])
}
pub proof fn lemma_put(b: Seq<char>, o: Seq<char>, t: Seq<char>, s: Seq<char>, c: char, w: Seq<char>)
    requires o == b + t, inside(t, s), says(w, o, c)
    ensures w == b + w.skip(b.len() as int), inside(w.skip(b.len() as int), s.push(c))
{
    let d = w.skip(o.len() as int);
    lemma_one(c); lemma_one(w.last());
    assert(d =~= seq![c] || d =~= seq!['\\', w.last()] || d =~= seq!['"', '"']);
    lemma_inside_char(t, s, d, c);
    assert(w =~= b + (t + d));
    assert(w.skip(b.len() as int) =~= t + d);
}
%fn write_escaped_chars
    ensures r is Ok ==> exists|t: Seq<char>| final(f).out() == old(f).out() + t && #[trigger] inside(t, chars@)
%param chars: Vec<char>
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost cs = chars@;
    let ghost mut t: Seq<char> = Seq::empty();
    proof { assert(f.out() + t =~= f.out()); assert(cs.take(0) =~= Seq::<char>::empty()); assert(inside(t, cs.take(0))) by { reveal(inside); reveal(literal); } }
%loop 0
    invariant
        f.out() == old(f).out() + t, inside(t, cs.take(it0.index@)),
%at loop 0 start
    let ghost o0 = f.out();
%at loop 0 end
    proof {
        assert(says(f.out(), o0, char));
        lemma_put(old(f).out(), o0, t, cs.take(it0.index@), char, f.out());
        assert(cs.take(it0.index@ + 1) =~= cs.take(it0.index@).push(char));
        t = f.out().skip(old(f).out().len() as int);
    }
%at loop 0 after
    proof { assert(cs.take(cs.len() as int) =~= cs); }
%raw
/// Exactly one literal in double quotes; it denotes `s`.
pub open spec fn is_literal(t: Seq<char>, s: Seq<char>) -> bool {
    t.len() >= 2 && t[0] == '"' && t.last() == '"' && inside(t.subrange(1, t.len() - 1), s)
}
%impl <StringEscape as Display>
    open spec fn prints(&self, t: Seq<char>) -> bool { is_literal(t, self.0@) }
%fn <StringEscape as Display>::fmt
%rw self.0.chars() => vx_chars(self.0)
%at before call write_escaped_chars
    let ghost o1 = f.out();
%at tail
    proof {
        let t = choose|t: Seq<char>| f.out() == o1 + t && #[trigger] inside(t, self.0@);
        let w = f.out().push('"');
        let o = old(f).out();
        assert(w.take(o.len() as int) =~= o);
        assert(w.skip(o.len() as int).subrange(1, w.len() - o.len() - 1) =~= t);
    }
%raw
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@
{ s.chars().collect() }
pub open spec fn ident_char(c: char) -> bool { '\u{1}' <= c && c <= '\u{ffff}' }
/// The permitted characters of `s`, in order.
#[verifier::opaque]
pub open spec fn kept(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else if ident_char(s.last()) { kept(s.drop_last()).push(s.last()) } else { kept(s.drop_last()) }
}
/// `s` without trailing white space.
#[verifier::opaque]
pub open spec fn trimmed(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && vstd::std_specs::char::is_white_space(s.last()) { trimmed(s.drop_last()) } else { s }
}
/// The text between backticks that denotes `s`: each backtick is written twice.
#[verifier::opaque]
pub open spec fn ticked(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.last() == '`' { ticked(s.drop_last()) + seq!['`', '`'] } else { ticked(s.drop_last()).push(s.last()) }
}
/// Exactly one identifier in backticks; it denotes what is to be kept of `s`.
pub open spec fn is_identifier(t: Seq<char>, s: Seq<char>) -> bool {
    t == seq!['`'] + ticked(trimmed(kept(s))) + seq!['`']
}
pub open spec fn bare_char(c: char) -> bool {
    '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' || c == '$' || c == '_' || '\u{80}' <= c <= '\u{ffff}'
}
%fn <IdentifierEscape as Display>::fmt::char_valid as fn vx_ident_char
    ensures r == ident_char(char)
%fn <UnquotedIdentifierEscape as Display>::fmt::char_valid as fn vx_bare_char
    ensures r == bare_char(char)
%impl <IdentifierEscape as Display>
    open spec fn prints(&self, t: Seq<char>) -> bool { is_identifier(t, self.0@) }
%fn <IdentifierEscape as Display>::fmt
%rw char_valid => vx_ident_char
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost cs = self.0@;
    let ghost o = f.out();
%loop 0
    invariant
        vx_n1 == it0.index@,
        f.out() == o.push('`'),
        0 <= upto(last_char) <= it0.index@,
        trimmed(kept(cs.take(it0.index@))) == kept(cs.take(upto(last_char))),
%at loop 0 before
    proof { lemma_nothing(); assert(cs.take(0) =~= Seq::<char>::empty()); }
%at loop 0 start
    proof { lemma_kept_step(cs, it0.index@); }
%loop 1
    invariant
        vx_n2 == it1.index@,
        0 <= upto(last_char) <= cs.len(),
        trimmed(kept(cs)) == kept(cs.take(upto(last_char))),
        f.out() == o + seq!['`'] + ticked(kept(cs.take(if it1.index@ < upto(last_char) { it1.index@ } else { upto(last_char) }))),
%at loop 1 before
    proof { assert(cs.take(cs.len() as int) =~= cs); assert(cs.take(0) =~= Seq::<char>::empty()); assert(f.out() =~= o + seq!['`'] + Seq::<char>::empty()); }
%at loop 1 start
    let ghost o1 = f.out();
    proof {
        lemma_kept_step(cs, it1.index@);
        if it1.index@ < upto(last_char) && ident_char(char) { lemma_ticked_step(kept(cs.take(it1.index@)), char); }
    }
%at loop 1 end
    proof {
        let k = kept(cs.take(it1.index@));
        if it1.index@ < upto(last_char) && ident_char(char) {
            let d = if char == '`' { seq!['`', '`'] } else { seq![char] };
            assert(f.out() =~= o1 + d);
            assert(o1 + d =~= o + seq!['`'] + (ticked(k) + d));
        }
    }
%at tail
    proof {
        let w = f.out().push('`');
        assert(w.take(o.len() as int) =~= o);
        assert(w.skip(o.len() as int) =~= seq!['`'] + ticked(trimmed(kept(cs))) + seq!['`']);
    }
%raw
pub proof fn lemma_nothing()
    ensures kept(Seq::empty()) == Seq::<char>::empty(), ticked(Seq::empty()) == Seq::<char>::empty(), trimmed(Seq::empty()) == Seq::<char>::empty(), bare(Seq::empty()) == Seq::<char>::empty()
{ reveal(kept); reveal(ticked); reveal(trimmed); reveal(bare); }
pub proof fn lemma_bare_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures bare(s.take(i + 1)) == if bare_char(s[i]) { bare(s.take(i)).push(s[i]) } else { bare(s.take(i)) }
{ reveal(bare); assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub open spec fn upto(l: Option<usize>) -> int { match l { Some(x) => x + 1, None => 0 } }
pub proof fn lemma_kept_step(s: Seq<char>, i: int)
    requires 0 <= i < s.len()
    ensures kept(s.take(i + 1)) == if ident_char(s[i]) { kept(s.take(i)).push(s[i]) } else { kept(s.take(i)) },
        ident_char(s[i]) && !vstd::std_specs::char::is_white_space(s[i]) ==> trimmed(kept(s.take(i + 1))) == kept(s.take(i + 1)),
        ident_char(s[i]) && vstd::std_specs::char::is_white_space(s[i]) ==> trimmed(kept(s.take(i + 1))) == trimmed(kept(s.take(i))),
{
    reveal(kept); reveal(trimmed);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(kept(s.take(i)).push(s[i]).drop_last() =~= kept(s.take(i)));
}
pub proof fn lemma_ticked_step(s: Seq<char>, c: char)
    ensures ticked(s.push(c)) == ticked(s) + (if c == '`' { seq!['`', '`'] } else { seq![c] })
{
    reveal(ticked);
    assert(s.push(c).drop_last() =~= s);
    assert(ticked(s).push(c) =~= ticked(s) + seq![c]);
}
%impl <UnquotedIdentifierEscape as Display>
    open spec fn prints(&self, t: Seq<char>) -> bool { t == bare(self.0@) }
%fn <UnquotedIdentifierEscape as Display>::fmt
%rw char_valid => vx_bare_char
%attr #[verifier::loop_isolation(false)]
%at entry
    let ghost cs = self.0@;
    let ghost o = f.out();
%loop 0
    invariant
        f.out() == o + bare(cs.take(it0.index@)),
%at loop 0 before
    proof { lemma_nothing(); assert(cs.take(0) =~= Seq::<char>::empty()); assert(f.out() =~= o + Seq::<char>::empty()); }
%at loop 0 start
    let ghost o1 = f.out();
%at loop 0 end
    proof {
        let k = it0.index@;
        lemma_bare_step(cs, k);
        assert(o1.push(char) =~= o + bare(cs.take(k)).push(char));
    }
%at tail
    proof {
        assert(cs.take(cs.len() as int) =~= cs);
        let w = f.out();
        assert(w.take(o.len() as int) =~= o);
        assert(w.skip(o.len() as int) =~= bare(cs));
    }
%raw
/// The characters of `s` that may stand in an unquoted identifier, in order.
#[verifier::opaque]
pub open spec fn bare(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else if bare_char(s.last()) { bare(s.drop_last()).push(s.last()) } else { bare(s.drop_last()) }
}
/// A quoted identifier cannot be left early: what MySQL reads between the outer backticks (a pair is one backtick, a single one ends the
/// identifier) is the whole content.
pub open spec fn unticked(s: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Some(s) }
    else if s[0] == '`' {
        if s.len() > 1 && s[1] == '`' { match unticked(s.skip(2)) { Some(t) => Some(seq!['`'] + t), None => None } } else { None }
    }
    else { match unticked(s.skip(1)) { Some(t) => Some(seq![s[0]] + t), None => None } }
}
pub proof fn lemma_unticked_join(a: Seq<char>, b: Seq<char>)
    requires unticked(a) is Some, unticked(b) is Some
    ensures unticked(a + b) == Some(unticked(a)->Some_0 + unticked(b)->Some_0)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(unticked(a)->Some_0 + unticked(b)->Some_0 =~= unticked(b)->Some_0); }
    else {
        let k = if a[0] == '`' { 2int } else { 1int };
        lemma_unticked_join(a.skip(k), b);
        assert((a + b).skip(k) =~= a.skip(k) + b);
        let h = seq![a[0]];
        assert(h + (unticked(a.skip(k))->Some_0 + unticked(b)->Some_0) =~= (h + unticked(a.skip(k))->Some_0) + unticked(b)->Some_0);
        assert((a + b)[0] == a[0]);
        if k == 2 { assert((a + b)[1] == a[1]); }
    }
}
pub proof fn lemma_identifier_reads_back(s: Seq<char>)
    ensures unticked(ticked(s)) == Some(s)
    decreases s.len()
{
    reveal(ticked);
    if s.len() > 0 {
        lemma_identifier_reads_back(s.drop_last());
        let c = s.last();
        let d = if c == '`' { seq!['`', '`'] } else { seq![c] };
        reveal_with_fuel(unticked, 3);
        assert(seq!['`', '`'].skip(2) =~= Seq::empty());
        assert(seq![c].skip(1) =~= Seq::empty());
        assert(seq!['`'] + Seq::<char>::empty() =~= seq!['`']);
        assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
        lemma_unticked_join(ticked(s.drop_last()), d);
        assert(ticked(s) =~= ticked(s.drop_last()) + d);
        assert(s.drop_last() + seq![c] =~= s);
    }
}
