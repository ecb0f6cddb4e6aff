//! The simulated storage: what a read of a file returns, given the faults that
//! the plan injects at that read. A pure function, used by the simulated
//! handler and by the reference model alike.

use crate::plan::{FileSpec, Fault, INC, Kind};

pub struct Answer {
    pub text: Option<String>,
    /// A fault that had an effect on the answer.
    pub fired: Option<Kind>,
}

pub fn lookup<'a>(files: &'a [FileSpec], target: &str) -> Option<&'a FileSpec> {
    files.iter().find(|f| f.name == target)
}

pub fn fault_at<'a>(faults: &'a [Fault], site: u8, nth: usize) -> Option<&'a Fault> {
    faults.iter().find(|f| f.site == site && f.nth == nth)
}

/// Content returned by the nth read of a parse; after `reads` of them, storage
/// answers "not found".
pub fn read(
    files: &[FileSpec],
    faults: &[Fault],
    reads: usize,
    nth: usize,
    source: Option<&str>,
    target: &str,
) -> Answer {
    if nth >= reads {
        return Answer { text: None, fired: None };
    }
    let file = lookup(files, target);
    let healthy = file.map(|f| f.text.render());
    let Some(f) = fault_at(faults, INC, nth) else {
        return Answer { text: healthy, fired: None };
    };
    let text = match f.kind {
        Kind::Missing => None,
        Kind::Empty => Some(String::new()),
        Kind::Swap => {
            if files.is_empty() {
                None
            } else {
                Some(files[f.arg as usize % files.len()].text.render())
            }
        }
        Kind::Cycle => match source.and_then(|s| lookup(files, s)) {
            Some(s) => Some(s.text.render()),
            None => Some(format!("include::{target}[]\n")),
        },
        Kind::Stale => file.map(|f| f.old.render()),
        Kind::Panic | Kind::Stall => healthy.clone(),
        _ => healthy.as_deref().map(|h| damage(h, f.kind, f.arg)),
    };
    let fired = if text != healthy || matches!(f.kind, Kind::Panic | Kind::Stall) {
        Some(f.kind)
    } else {
        None
    };
    Answer { text, fired }
}

const FLIPS: &[char] = &[
    ':', '[', ']', '{', '}', '\\', '=', '-', '*', ' ', '\n', '\r', '\t', 'x', 'é', '日', '\u{1d11e}', '\u{a0}', '<', '+',
    '.', '`', '_', '#', '\u{0}', '"', '|', '/', '\u{2028}', '\u{fffd}',
];

pub fn damage(s: &str, kind: Kind, arg: u64) -> String {
    let arg = arg as usize;
    match kind {
        Kind::Torn => {
            let n = s.chars().count();
            s.chars().take(arg % (n + 1)).collect()
        }
        Kind::Flip => {
            let n = s.chars().count();
            if n == 0 {
                return String::new();
            }
            let at = arg % n;
            let c = FLIPS[(arg / n) % FLIPS.len()];
            s.chars().enumerate().map(|(i, x)| if i == at { c } else { x }).collect()
        }
        Kind::Crlf => s.replace("\r\n", "\n").replace('\n', "\r\n"),
        Kind::Bom => format!("\u{feff}{s}"),
        Kind::DupLine | Kind::LoseLine | Kind::SwapLines => {
            let mut l: Vec<&str> = s.split_inclusive('\n').collect();
            if l.is_empty() {
                return String::new();
            }
            let i = arg % l.len();
            match kind {
                Kind::DupLine => l.insert(i, l[i]),
                Kind::LoseLine => {
                    l.remove(i);
                }
                _ => {
                    let j = (arg / l.len()) % l.len();
                    l.swap(i, j);
                }
            }
            l.concat()
        }
        _ => s.to_string(),
    }
}
