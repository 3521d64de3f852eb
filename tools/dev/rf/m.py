import sys; sys.path.insert(0,'/tmp/rf')
from run import *
rf('M errs>1',[(PM,"""        0 => Ok(Module::new(body, arena)),
        _ => Err(errors)""","""        0 | 1 => Ok(Module::new(body, arena)),
        _ => Err(errors)""")])
rf('M conv any op',[(PM,"""                operator: OperatorKind::Assign,
                left,
                right,
            }) => {
                Pattern""","""                left,
                right,
                ..
            }) => {
                Pattern""")])
rf('M conv left.start',[(PM,"self.alloc_at_loc(expression.start, expression.end, pattern)","self.alloc_at_loc(expression.start, expression.start, pattern)")])
rf('M list skip',[(PM,"""        for &expression in expressions {""","""        expressions.next();
        for &expression in expressions {""")])
rf('M list lost',[(PM,"""        for &expression in expressions {
            builder.push(self.arena, self.pattern_from_expression(expression));
        }
""","""        for &expression in expressions.take(1) {
            builder.push(self.arena, self.pattern_from_expression(expression));
        }
""")])
rf('R list while let',[(PM,"""        for &expression in expressions {
            builder.push(self.arena, self.pattern_from_expression(expression));
        }
""","""        while let Some(expression) = expressions.next() {
            let param = self.pattern_from_expression(*expression);
            builder.push(self.arena, param);
        }
""")])
rf('R is_empty',[(PM,"""    match errors.len() {
        0 => Ok(Module::new(body, arena)),
        _ => Err(errors)
    }""","""    if errors.is_empty() {
        return Ok(Module::new(body, arena));
    }
    Err(errors)""")])
rf('R growable',[(PM,"""        let builder = match expressions.next() {
            Some(&expression) => {
                let param = self.pattern_from_expression(expression);

                ListBuilder::new(self.arena, param)
            },
            None => return NodeList::empty()
        };

        for &expression""","""        let builder = ::toolshed::list::GrowableList::new();
        for &expression""")])
