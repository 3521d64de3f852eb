import sys; sys.path.insert(0,'/tmp/sd')
from plant import *
PS='ratel/src/parser/statement.rs'; PE='ratel/src/parser/expression.rs'; PF='ratel/src/parser/function.rs'; PM='ratel/src/parser/mod.rs'; PN='ratel/src/parser/nested.rs'
plant('s06-finally-end','S06',[(PS,"(Some(handler), Some(block), block.end)","(Some(handler), Some(block), handler.end)")],"a try statement with catch and finally","the span of a try statement excludes its finally block",r'''fn main() {
    let s = "try { a } catch (b) { c } finally { d }";
    let m = ratel::parse(s).unwrap();
    let n = m.body().iter().next().unwrap();
    assert_eq!((n.start as usize, n.end as usize), (0, s.len()));
}
''')
plant('s06-tagged-end','S06',[(PE,"""        self.alloc_at_loc(tag.start, quasi.end, TaggedTemplateExpression""","""        let first: Node<TemplateLiteral> = quasi;
        self.alloc_at_loc(tag.start, first.expressions.only_element().map(|e| e.end).unwrap_or(first.end), TaggedTemplateExpression""")],"a tagged template with exactly one expression","a tagged template ends with its expression",r'''fn main() {
    let s = "a`b${c}d`";
    let m = ratel::parse(s).unwrap();
    let n = m.body().iter().next().unwrap();
    assert_eq!((n.start as usize, n.end as usize), (0, s.len()));
}
''')
plant('s06-spread-start','S06',[(PN,"""    par.alloc_at_loc(left.start, end, ComputedMemberExpression""","""    par.alloc_at_loc(property.start, end, ComputedMemberExpression""")],"a computed member","a computed member begins inside of its brackets",r'''fn main() {
    let s = "abc[d]";
    let m = ratel::parse(s).unwrap();
    let n = m.body().iter().next().unwrap();
    assert_eq!((n.start as usize, n.end as usize), (0, s.len()));
}
''')
