import os; os.environ['MODS']='message'
import sys; sys.path.insert(0,'/tmp/rf')
from run import *
F='ratel/src/error.rs'
first="""                let (lineno, line) = source[..start]
                                       .split('\\n')
                                       .enumerate()
                                       .last()
                                       .unwrap_or((0, ""));
"""
it="""                let iter = source
                            .split('\\n')
                            .map(|line| line.trim_end_matches('\\r'))
                            .enumerate()
                            .skip_while(|&(index, _)| index < lineno.saturating_sub(2))
                            .take_while(|&(index, _)| index < lineno + 3);
"""
mk="""                        for _ in 0..width {
                            write!(f, " ")?;
                        }

                        write!(f, "   | ")?;

                        for _ in 0..colno {
                            write!(f, " ")?;
                        }

                        for _ in 0..token_len {
                            write!(f, "^")?;
                        }

                        writeln!(f)?;
"""
T=[
('OK matches',[(F,first,"""                let head = &source[..start];
                let lineno = head.matches('\\n').count();
                let line = match head.rfind('\\n') { Some(i) => &head[i + 1..], None => head };
""")]),
('OK rsplit',[(F,first,"""                let head = &source[..start];
                let lineno = head.chars().filter(|&c| c == '\\n').count();
                let line = head.rsplit('\\n').next().unwrap_or("");
""")]),
('OK rfind map_or',[(F,first,"""                let lineno = source[..start].bytes().filter(|&b| b == b'\\n').count();
                let line_start = source[..start].rfind('\\n').map_or(0, |i| i + 1);
                let line = &source[line_start..start];
""")]),
('OK split count',[(F,first,"""                let lineno = source[..start].split('\\n').count() - 1;
                let line = source[..start].split('\\n').last().unwrap_or("");
""")]),
('OK fold',[(F,first,"""                let mut lineno = 0;
                let mut line = "";
                for (i, l) in source[..start].split('\\n').enumerate() { lineno = i; line = l; }
""")]),
('OK skip take',[(F,it,"""                let first = lineno.saturating_sub(2);
                let iter = source
                            .split('\\n')
                            .map(|line| line.trim_end_matches('\\r'))
                            .enumerate()
                            .skip(first)
                            .take(lineno + 3 - first);
""")]),
('OK filter',[(F,it,"""                let first = lineno.saturating_sub(2);
                let iter = source
                            .split('\\n')
                            .enumerate()
                            .filter(|&(index, _)| index >= first && index <= lineno + 2)
                            .map(|(index, line)| (index, line.trim_end_matches('\\r')));
""")]),
('OK lines shown',[(F,it,"""                let iter = source
                            .lines()
                            .chain(if source.ends_with('\\n') { Some("") } else { None })
                            .enumerate()
                            .skip_while(|&(index, _)| index < lineno.saturating_sub(2))
                            .take_while(|&(index, _)| index < lineno + 3);
""")]),
('OK repeat',[(F,mk,"""                        writeln!(f, "{}   | {}{}", " ".repeat(width), " ".repeat(colno), "^".repeat(token_len))?;
""")]),
('OK pad',[(F,mk,"""                        writeln!(f, "{0:1$}   | {0:2$}{3}", "", width, colno, "^".repeat(token_len))?;
""")]),
('OK write_char',[(F,mk,"""                        use std::fmt::Write;
                        for _ in 0..width { f.write_char(' ')?; }
                        f.write_str("   | ")?;
                        for _ in 0..colno { f.write_char(' ')?; }
                        for _ in 0..token_len { f.write_char('^')?; }
                        f.write_char('\\n')?;
""")]),
('OK helper',[(F,mk,"""                        repeat(f, " ", width)?;
                        write!(f, "   | ")?;
                        repeat(f, " ", colno)?;
                        repeat(f, "^", token_len)?;
                        writeln!(f)?;
"""),(F,"fn log10(","fn repeat(f: &mut fmt::Formatter, what: &str, n: usize) -> fmt::Result { for _ in 0..n { f.write_str(what)?; } Ok(()) }\nfn log10(")]),
('OK log10',[(F,"""    let mut log = 0;

    while num > 0 {
        log += 1;
        num /= 10;
    }

    log
""","""    let mut log = 1;
    while num >= 10 {
        log += 1;
        num /= 10;
    }
    log
""")]),
('OK width to_string',[(F,"let width = log10(lineno + 3);","let width = (lineno + 3).to_string().len();"),(F,"fn log10","#[allow(dead_code)]\nfn log10")]),
('OK match instead of if',[(F,"if index == lineno {","if index.wrapping_sub(lineno) == 0 {")]),
('OK not equal first',[(F,"""                    if index == lineno {""","""                    if index != lineno {
                        writeln!(f, "{0:1$} | {2}", index+1, width+2, line)?;
                        continue;
                    }
                    {"""),(F,"""                    } else {
                        writeln!(f, "{0:1$} | {2}", index+1, width+2, line)?;
                    }""","                    }")]),
('OK one more line',[(F,"lineno.saturating_sub(2)","lineno.saturating_sub(3)")]),
('OK gutter',[(F,'"> {0:1$} | {2}"','">> {0:1$} | {2}"'),(F,'"   | "','"    | "'),(F,'width+2','width+3')]),
('OK return early',[(F,"""                write!(f, "Unexpected end of program")?
            },""","""                return f.write_str("Unexpected end of program");
            },""")]),
('BUG lines',[(F,first,first.replace("split('\\n')","lines()"))]),
('BUG lines shown',[(F,it,it.replace("split('\\n')","lines()"))]),
('BUG bytes',[(F,"line.chars().count()","line.len()")]),
('BUG toklen bytes',[(F,"source[start..end].chars().count()","end - start")]),
('BUG lineno',[(F,"lineno + 1, colno + 1","lineno, colno + 1")]),
('BUG col',[(F,"lineno + 1, colno + 1","lineno + 1, colno")]),
('BUG window',[(F,"index < lineno + 3)","index < lineno)")]),
('BUG window2',[(F,"lineno.saturating_sub(2)","lineno.saturating_sub(2) + 1")]),
('BUG window3',[(F,"lineno.saturating_sub(2)","(lineno - 2)")]),
('BUG width',[(F,"log10(lineno + 3)","log10(lineno)")]),
('BUG end',[(F,"source[..start]","source[..end]")]),
('BUG marker',[(F,'"   | "','"  | "')]),
('BUG mark other',[(F,"index == lineno","index == lineno + 1")]),
('BUG index',[(F,'width, line)?','width, source)?')]),
('BUG trim',[(F,"trim_end_matches('\\r')","trim()")]),
('BUG no newline',[(F,'"> {0:1$} | {2}", index+1','"> {0:1$} | {2}", index')]),
('BUG carriage return marker',[(F,".map(|line| line.trim_end_matches('\\r'))\n","\n")]),
('BUG log10',[(F,"num /= 10","num /= 16")]),
]
sel=sys.argv[1:]
for n,e in T:
    if not sel or any(x in n for x in sel): rf(n,e)
