// Reads documents, evaluates them and describes the resulting content.
// items: list of (mode, source); result: for every item the description of its content.
#let seq-func = ([a] + [b]).func()
#let space-func = [ ].func()
#let styled-func = text(red)[a].func()

// a style does not show in a content: which of these have its size?
#let styles = (
  bold: math.bold, boldupright: x => math.bold(math.upright(x)), upright: math.upright, italic: math.italic, sans: math.sans,
  frak: math.frak, mono: math.mono, cal: math.cal, scr: math.scr, bb: math.bb, display: math.display, inline: math.inline,
  script: math.script, sscript: math.sscript, plain: x => x,
)
#let size(x) = measure(math.equation(block: false, x))
#let style-of(c) = {
  let s = size(c)
  styles.pairs().filter(p => size((p.at(1))(c.child)) == s).map(p => p.at(0))
}
#let align-func = $&$.body.func()
#let sym-func = $+$.body.func()
#let num(x) = if type(x) == int or type(x) == float { x } else { repr(x) }

// a description: list of nodes, each a list that begins with its kind
#let norm(c) = {
  if c == none { return () }
  if type(c) == str or type(c) == symbol { return str(c).clusters().map(x => ("t", x)) }
  if type(c) == int or type(c) == float { return (("n", str(c)),) }
  if type(c) == array { return (("arr", ..c.map(norm)),) }
  if type(c) != content { return (("v", repr(c)),) }
  let f = c.func()
  if f == seq-func { return c.children.map(norm).sum(default: ()) }
  if f == space-func { return () }
  if f == metadata {
    let v = c.value
    return ((v.kind, v.name, v.pos.map(norm), v.named.pairs().map(p => (p.at(0), norm(p.at(1))))),)
  }
  if f == text or f == sym-func { return c.text.clusters().map(x => ("t", x)) }
  if f == math.equation { return norm(c.body) }
  if f == styled-func { return (("styled", norm(c.child), style-of(c)),) }
  if f == math.attach {
    let g(k) = norm(c.at(k, default: none))
    return (("att", norm(c.base), ..("t", "b", "tl", "bl", "tr", "br").map(g)),)
  }
  if f == math.primes { return (("pr", c.count),) }
  if f == math.frac { return (("frac", norm(c.num), norm(c.denom)),) }
  if f == math.root { return (("root", norm(c.at("index", default: none)), norm(c.radicand)),) }
  if f == math.lr { return (("lr", norm(c.body), repr(c.at("size", default: 100% + 0pt))),) }
  if f == math.binom { return (("binom", norm(c.upper), ..c.lower.map(norm)),) }
  if f == math.accent { return (("accent", norm(c.base), repr(c.accent)),) }
  if f == math.mat {
    return (("mat", repr(c.at("delim", default: ("(", ")"))), ..c.rows.map(r => r.map(norm))),)
  }
  if f == math.cases { return (("cases", repr(c.at("reverse", default: false)), ..c.children.map(norm)),) }
  if f == math.op { return (("op", norm(c.text), repr(c.at("limits", default: false))),) }
  if f == math.class { return (("class", c.class, norm(c.body)),) }
  if f == align-func { return (("&",),) }
  if f == linebreak { return (("br",),) }
  if f == h { return (("h", repr(c.amount)),) }
  let fs = c.fields()
  let body = if "body" in fs { (fs.remove("body"),) } else if "children" in fs { fs.remove("children") } else { () }
  return ((repr(f), fs.pairs().map(p => (p.at(0), if type(p.at(1)) == content { norm(p.at(1)) } else { repr(p.at(1)) })), ..body.map(norm)),)
}

// the same for text: white space, paragraphs and labels count
#let tnorm(c) = {
  if c == none { return () }
  if type(c) == str { return str(c).clusters().map(x => ("t", x)) }
  if type(c) != content { return (("v", repr(c)),) }
  let f = c.func()
  let lab = c.at("label", default: none)
  let labelled(n) = (n,) + if lab == none { () } else { (("lab", str(lab)),) }
  if f == seq-func { return c.children.map(tnorm).sum(default: ()) + if lab == none { () } else { (("lab", str(lab)),) } }
  if f == space-func { return (("sp",),) }
  if f == text or f == sym-func { return labelled(("text", c.text.clusters())) }
  if f == smartquote { return (("t", if c.double { "\"" } else { "'" }),) }
  if f == linebreak { return (("br",),) }
  if f == parbreak { return (("par",),) }
  if f == metadata { return ((c.value.kind, c.value.named.pairs().map(p => (p.at(0), repr(p.at(1)))).flatten(), ..c.value.pos),) }
  if f == math.equation { return labelled(("eq", c.block, norm(c.body))) }
  if f == heading { return labelled(("head", c.level, tnorm(c.body))) }
  if f == list.item { return labelled(("li", tnorm(c.body))) }
  if f == enum.item { return labelled(("ei", tnorm(c.body))) }
  if f == quote and c.block { return labelled(("quote", tnorm(c.body))) }
  if f == figure {
    let cap = c.at("caption", default: none)
    return labelled(("fig", if cap == none { () } else { (tnorm(cap.body),) }, tnorm(c.body)))
  }
  if f == table {
    let lines = c.children.filter(x => x.func() == table.vline).map(x => x.x)
    let rest = c.children.filter(x => x.func() != table.vline)
    return labelled(("table", c.align.map(repr), lines, rest.map(x => if x.func() == table.hline {
      ("hline", repr(x.stroke))
    } else { ("cell", tnorm(x.body)) })))
  }
  if f == footnote { return labelled(("foot", tnorm(c.body))) }
  if f == ref { return (("ref", str(c.target)),) }
  if f == cite { return (("cite", str(c.key)),) }
  if f == strong { return labelled(("strong", tnorm(c.body))) }
  if f == emph { return labelled(("emph", tnorm(c.body))) }
  if f == styled-func { return labelled(("fill", tnorm(c.child))) }
  if f == box { return labelled(("box", tnorm(c.body))) }
  return labelled((repr(f), norm(c)))
}
