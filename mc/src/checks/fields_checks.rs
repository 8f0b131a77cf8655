//! C12, C20: named fields and the printed summary.

use std::time::Duration;

use mp4ameta::AudioInfo;

use super::*;
use crate::fields::*;
use crate::mp4::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C12",
            level: "model_checking",
            technique: "explicit-state search over the operations of each field and of all fields together, in lockstep with a model of documented identifiers and representations; all 16-bit values",
            note: "Each field: all states reachable by any sequence of its operations from every kind of stored representation, next to values of all other fields. All fields: every sequence of operations up to a depth. Whole content and all getters are compared after every operation, also after a round trip through a file.",
            rule: "states are distinct tag contents, transitions operations executed on the real tag and compared with the model",
            assumptions: &["lists of values are bounded in length; 32-bit numbers and texts come from a menu"],
            run: c12,
        },
        Check {
            id: "C20",
            level: "model_checking",
            technique: "bounded exhaustive enumeration of tag contents, the printed summary compared with a model line by line",
            note: "Every field with every kind of representation, all pairs and bounded combinations of fields, all boundaries of number formatting.",
            rule: "states are distinct tags, transitions formatted tags compared with the expected set of lines",
            assumptions: &["the wording of labels is that of the current summary; the order of fields is not compared"],
            run: c20,
        },
    ]
}

#[derive(Clone)]
struct State {
    tag: Tag,
    model: Items,
}

struct World {
    fields: Vec<Field>,
    ops: Vec<(usize, FOp)>,
    max: usize,
}

impl World {
    fn check(&self, s: &State) -> Verdict {
        check_items("content", &s.tag, &s.model)?;
        let none = Vec::new();
        for f in &self.fields {
            f.check(&s.tag, s.model.get(&f.id).unwrap_or(&none))?;
        }
        // the combined view of genres is not a field of its own, it only must not fail
        let _ = s.tag.genres().count();
        Ok(())
    }

    fn apply(&self, s: &State, op: usize) -> Result<Option<State>, String> {
        let (f, op) = &self.ops[op];
        let f = &self.fields[*f];
        let mut s = s.clone();
        let mut m = s.model.remove(&f.id).unwrap_or_default();
        f.apply(op, &mut s.tag, &mut m).map_err(|e| format!("{} {:?}: {}", f.name, op, e))?;
        if m.len() > self.max {
            return Ok(None);
        }
        if !m.is_empty() {
            s.model.insert(f.id.clone(), m);
        }
        self.check(&s).map_err(|e| format!("after {} {:?}: {}", f.name, op, e))?;
        Ok(Some(s))
    }

    fn show(&self, op: usize) -> String {
        let (f, op) = &self.ops[op];
        format!("{} {:?}", self.fields[*f].name, op)
    }
}

fn key(s: &State) -> u64 {
    hash(&s.model)
}

fn state(items: &[(Id, Vec<Val>)]) -> State {
    State { tag: tag_of(items), model: map_of(items) }
}

/// A value for each field, none of them what the operations store.
fn background(fields: &[Field]) -> Vec<(Id, Vec<Val>)> {
    fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let n = i as u8 + 100;
            let v = match &f.access {
                Access::Single { .. } | Access::Multi { .. } => vec![Val::s(&format!("text {}", i)), Val::s16(&format!("wide {}", i))],
                Access::Artwork => vec![Val::new(Kind::Png, &[n]), Val::new(Kind::Jpeg, &[n, n])],
                Access::Flag { .. } => vec![Val::new(Kind::BeSigned, &[1])],
                Access::Media => vec![Val::new(Kind::Reserved, &[10])],
                Access::Rating => vec![Val::new(Kind::Reserved, &[2])],
                _ => vec![Val::new(Kind::BeSigned, &[0, n, 0, n + 1, 0, n])],
            };
            (f.id.clone(), v)
        })
        .chain([(Id::free("com.apple.iTunes", "isrc"), vec![Val::s("near miss")]), (Id::fc("----"), vec![Val::s("x")]), (Id::fc("\u{a9}grO"), vec![Val::s("y")])])
        .collect()
}

fn c12(run: &mut Run) {
    let all = fields();
    // each field for itself, from all kinds of representations, next to values of all others
    for i in 0..all.len() {
        let fields = fields();
        let f = &fields[i];
        let name = format!("field {}", f.name);
        let bg = background(&fields);
        let mut initials = Vec::new();
        for r in f.initials() {
            initials.push(state(&[(f.id.clone(), r.clone())]));
            let mut l: Vec<(Id, Vec<Val>)> = bg.iter().filter(|(id, _)| *id != f.id).cloned().collect();
            l.insert(l.len() / 2, (f.id.clone(), r));
            initials.push(state(&l));
        }
        let ops = f.ops(true).into_iter().map(|o| (i, o)).collect();
        let w = World { fields, ops, max: run.tiered(5, 6) };
        run.bfs(&name, initials, w.ops.len(), 60, |s, o| w.apply(s, o), key, |o| w.show(o));
    }

    // all fields together
    let w = {
        let fields = fields();
        let ops = fields.iter().enumerate().flat_map(|(i, f)| f.ops(false).into_iter().map(move |o| (i, o))).collect();
        World { fields, ops, max: 3 }
    };
    let depth = run.tiered(4, 5);
    let start = vec![state(&[])];
    run.bfs("all fields", start, w.ops.len(), depth, |s, o| w.apply(s, o), key, |o| w.show(o));
    let full = vec![state(&background(&w.fields))];
    let depth = run.tiered(3, 4);
    run.bfs("all fields present", full, w.ops.len(), depth, |s, o| w.apply(s, o), key, |o| w.show(o));

    // all numbers
    let all = fields();
    let all = &all;
    run.explore("numbers", 0, |c| {
        let ints: Vec<&Field> = all.iter().filter(|f| matches!(f.access, Access::Int { .. })).collect();
        let f = *c.all_of(&ints);
        let hi = c.all(256) as u32;
        let (bytes, set) = match &f.access {
            Access::Int { bytes, set, .. } => (*bytes, set),
            _ => unreachable!(),
        };
        for lo in 0..256u32 {
            // for wider numbers: two bytes at every position
            let ns: Vec<u32> = if bytes == 2 { vec![hi << 8 | lo] } else { vec![hi << 24 | lo << 16, hi << 16 | lo, hi << 8 | lo, hi << 24 | lo << 8 | 0xFF] };
            for n in ns {
                let mut t = Tag::default();
                guard("setter", || set(&mut t, n))?;
                let want = Val::new(Kind::BeSigned, &n.to_be_bytes()[4 - bytes..]);
                let stored: Vec<Val> = t.data_of(&f.id.to_ident()).map(Val::of).collect();
                ensure!(stored == [want.clone()], "{} {} is stored as {:?}", f.name, n, stored);
                f.check(&t, &stored)?;
                c.step(1);
                c.state(&(f.name, n));
            }
        }
        Ok(())
    });

    // through a file: what a setter stored is found by the getter of the tag that is read, and what
    // a file stores under the documented identifier is found as well
    run.explore("through a file", 0, |c| {
        let f = c.all_of(all);
        let way = c.all(3);
        let (tag, model) = if way == 0 {
            let ops = f.ops(true);
            let op = c.all_of(&ops);
            let mut t = Tag::default();
            let mut m = Vec::new();
            guard("operation", || f.apply(op, &mut t, &mut m))??;
            (t, m)
        } else {
            let i = f.initials();
            let r = c.all_of(&i).clone();
            (tag_of(&[(f.id.clone(), r.clone())]), r)
        };
        let want = map_of(&[(f.id.clone(), model.clone())]);
        let b = match way {
            // written by the crate into a file
            0 | 1 => match written("write_to", &tag, &bytes_of(&small_file(ilst_of(&background(all)))))? {
                Ok(b) => b,
                Err(e) => return Err(format!("write_to failed: {}", e)),
            },
            // written by the independent encoder
            _ if model.is_empty() => bytes_of(&small_file(ilst_of(&[]))),
            _ => bytes_of(&small_file(ilst_of(&[(f.id.clone(), model.clone())]))),
        };
        let t = must_read("read_from", &b)?;
        c.step(1);
        c.state(&b);
        check_items("content", &t, &want)?;
        guard("getter", || f.check(&t, &model))?
    });
}

// ---------------------------------------------------------------------------------------------
// C20

/// Blocks of lines a summary consists of.
fn expected(fields: &[Field], m: &Items, info: &AudioInfo, ftyp: &str) -> Vec<Vec<String>> {
    let none = Vec::new();
    let mut out: Vec<Vec<String>> = Vec::new();
    let list = |label: &str, plural: &str, v: Vec<String>| -> Option<Vec<String>> {
        match v.len() {
            0 => None,
            1 => Some(vec![format!("{}: {}", label, v[0])]),
            _ => Some(std::iter::once(format!("{}:", plural)).chain(v.into_iter().map(|s| format!("    {}", s))).collect()),
        }
    };
    let texts = |l: &[Val]| -> Vec<String> { l.iter().filter(|v| v.kind.is_text()).map(|v| String::from_utf8(v.bytes.clone()).unwrap()).collect() };
    for f in fields {
        let l = m.get(&f.id).unwrap_or(&none);
        let bytes = l.iter().find(|v| v.kind.is_bytes());
        let b = match &f.access {
            Access::Single { .. } => list(f.name, &f.plural, texts(l).into_iter().take(1).collect()),
            // shown as genres
            Access::Multi { .. } if f.name == "custom genre" => None,
            Access::Multi { .. } => list(f.name, &f.plural, texts(l)),
            Access::Flag { .. } => match bytes {
                Some(v) if v.bytes.first() == Some(&1) => Some(vec![f.name.to_owned()]),
                _ => None,
            },
            Access::Int { bytes: n, .. } => bytes.and_then(|v| be(v, 0, *n)).map(|n| vec![format!("{}: {}", f.name, n)]),
            Access::Artwork => {
                let v = l
                    .iter()
                    .filter(|v| v.kind.is_image())
                    .map(|v| {
                        let k = match v.kind {
                            Kind::Png => "png",
                            Kind::Jpeg => "jpeg",
                            _ => "bmp",
                        };
                        match v.bytes.len() {
                            n if n < 1024 => format!("{} {}", k, n),
                            n if n < 1024 * 1024 => format!("{} {}k", k, n / 1024),
                            n => format!("{} {}M", k, n / 1024 / 1024),
                        }
                    })
                    .collect();
                list(f.name, &f.plural, v)
            }
            Access::Media => bytes.and_then(|v| v.bytes.first()).and_then(|c| media_of(*c)).map(|m| vec![format!("media type: {}", m.1)]),
            Access::Rating => bytes.and_then(|v| v.bytes.first()).map(|c| vec![format!("advisory rating: {}", rating_of(*c).1)]),
            Access::Genre => {
                let mut v: Vec<String> = l
                    .iter()
                    .filter(|v| v.kind.is_bytes())
                    .filter_map(|v| be(v, 0, 2))
                    .filter(|c| (1..=80).contains(c))
                    .map(|c| mp4ameta::STANDARD_GENRES[c as usize - 1].to_owned())
                    .collect();
                v.extend(texts(m.get(&Id::fc("\u{a9}gen")).unwrap_or(&none)));
                list("genre", "genres", v)
            }
            Access::Track | Access::Disc => {
                let half = |at| bytes.and_then(|v| be(v, at, 2)).filter(|n| *n != 0);
                match (half(2), half(4)) {
                    (Some(a), Some(b)) => Some(vec![format!("{}: {} of {}", f.name, a, b)]),
                    (Some(a), None) => Some(vec![format!("{}: {}", f.name, a)]),
                    (None, Some(b)) => Some(vec![format!("{}: ? of {}", f.name, b)]),
                    _ => None,
                }
            }
        };
        out.extend(b);
    }
    for (id, l) in m {
        if let Id::Free(mean, name) = id {
            let mut b = vec![format!("----:{}:{}:", mean, name)];
            for v in l {
                let s = || String::from_utf8(v.bytes.clone()).unwrap();
                b.push(match v.kind {
                    Kind::Reserved => format!("    Data::Reserved({:?})", v.bytes),
                    Kind::BeSigned => format!("    Data::BeSigned({:?})", v.bytes),
                    Kind::Utf8 => format!("    Data::Utf8({:?})", s()),
                    Kind::Utf16 => format!("    Data::Utf16({:?})", s()),
                    Kind::Jpeg => "    Data::Jpeg".to_owned(),
                    Kind::Png => "    Data::Png".to_owned(),
                    Kind::Bmp => "    Data::Bmp".to_owned(),
                });
            }
            out.push(b);
        }
    }
    if let Some(d) = info.duration {
        let n = d.as_nanos();
        let (s, m, h) = (n / 1_000_000_000, n / 60_000_000_000, n / 3_600_000_000_000);
        let t = if n < 1_000 {
            format!("{}ns", n)
        } else if n < 1_000_000 {
            format!("{}\u{b5}s", n / 1_000)
        } else if n < 1_000_000_000 {
            format!("{}ms", n / 1_000_000)
        } else if m == 0 {
            format!("{}s", s)
        } else if h == 0 {
            format!("{}:{:02}", m, s % 60)
        } else {
            format!("{}:{:02}:{:02}", h, m % 60, s % 60)
        };
        out.push(vec![format!("duration: {}", t)]);
    }
    if let Some(c) = info.channel_config {
        let i = (1..8).find(|k| channel_of(*k) == Some(c)).unwrap() as usize;
        out.push(vec![format!("channel config: {}", ["Mono", "Stereo", "3.0", "4.0", "5.0", "5.1", "7.1"][i - 1])]);
    }
    if let Some(r) = info.sample_rate {
        let i = (0..13).find(|k| rate_of(*k) == Some(r)).unwrap() as usize;
        let hz = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350][i];
        out.push(vec![format!("sample rate: {}Hz", hz)]);
    }
    if let Some(b) = info.avg_bitrate {
        out.push(vec![format!("average bitrate: {}kbps", b / 1024)]);
    }
    if let Some(b) = info.max_bitrate {
        out.push(vec![format!("maximum bitrate: {}kbps", b / 1024)]);
    }
    out.push(vec![format!("filetype: {}", ftyp)]);
    out.sort();
    out
}

/// Splits a summary into blocks: a line and the indented ones that follow.
fn blocks(s: &str) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = Vec::new();
    for l in s.lines() {
        match out.last_mut() {
            Some(b) if l.starts_with("    ") => b.push(l.to_owned()),
            _ => out.push(vec![l.to_owned()]),
        }
    }
    out.sort();
    out
}

fn check_summary(fields: &[Field], items: &[(Id, Vec<Val>)], info: &AudioInfo, ftyp: &str) -> Verdict {
    let mut t = Tag::new(ftyp.to_owned(), info.clone(), Vec::new());
    for (i, l) in items {
        for v in l {
            t.add_data(i.to_ident(), v.to_data());
        }
    }
    compare(fields, &t, &map_of(items), info, ftyp)
}

fn compare(fields: &[Field], t: &Tag, m: &Items, info: &AudioInfo, ftyp: &str) -> Verdict {
    let s = guard("formatting", || t.to_string())?;
    let got = blocks(&s);
    let want = expected(fields, m, info, ftyp);
    if got != want {
        let missing: Vec<&Vec<String>> = want.iter().filter(|b| !got.contains(b)).collect();
        let extra: Vec<&Vec<String>> = got.iter().filter(|b| !want.contains(b)).collect();
        return Err(format!("summary of [{}] misses {:?} and has {:?} instead; summary: {:?}", show_items(m), missing, extra, s));
    }
    Ok(())
}

/// Contents of a field worth showing.
fn shown(f: &Field) -> Vec<Vec<Val>> {
    let mut v = f.initials();
    match &f.access {
        Access::Single { .. } | Access::Multi { .. } => {
            v.push(vec![Val::s("")]);
            v.push(vec![Val::s("x: y"), Val::s("z:"), Val::s("{} \u{1F600}")]);
            v.push(vec![Val::s16("w"), Val::s16("")]);
        }
        Access::Artwork => {
            for n in [0, 1, 1023, 1024, 1025, 2047, 2048, 1024 * 1024 - 1, 1024 * 1024, 2 * 1024 * 1024 - 1, 2 * 1024 * 1024] {
                v.push(vec![Val::new(Kind::Png, &vec![1; n])]);
            }
            v.push(vec![Val::new(Kind::Jpeg, &[1; 1024]), Val::new(Kind::Bmp, &[1; 5]), Val::new(Kind::Png, &[])]);
        }
        Access::Media => v.extend((0..=255).map(|c| vec![Val::new(Kind::Reserved, &[c])])),
        Access::Rating => v.extend((0..=255).map(|c| vec![Val::new(Kind::Reserved, &[c, 1])])),
        Access::Genre => v.extend((0..=300u16).map(|c| vec![Val::new(Kind::Reserved, &c.to_be_bytes()), Val::new(Kind::Reserved, &(c / 2).to_be_bytes())])),
        Access::Track | Access::Disc => {
            for a in [0u16, 1, 255, 256, 65535] {
                for b in [0u16, 1, 255, 256, 65535] {
                    let (x, y) = (a.to_be_bytes(), b.to_be_bytes());
                    v.push(vec![Val::new(Kind::Reserved, &[0, 0, x[0], x[1], y[0], y[1]])]);
                }
            }
            for n in 0..8 {
                v.push(vec![Val::new(Kind::Reserved, &[1; 8][..n])]);
            }
        }
        _ => v.extend([vec![Val::new(Kind::BeSigned, &[0; 4])], vec![Val::new(Kind::BeSigned, &[255, 254, 0, 1])]]),
    }
    v
}

fn frees() -> Vec<Vec<(Id, Vec<Val>)>> {
    let all: Vec<Val> = KINDS.iter().map(|k| Val::new(*k, b"12\"\t")).chain(KINDS.iter().map(|k| Val::new(*k, b""))).collect();
    vec![
        vec![],
        vec![(Id::free("a", "b"), all)],
        vec![(Id::free("", ""), vec![Val::s("v")]), (Id::free("com.apple.iTunes", "iTunSMPB"), vec![Val::s("00 11"), Val::s16("\u{e9}")])],
        vec![(Id::free("com.apple.iTunes", "ISRC"), vec![Val::s("AA"), Val::new(Kind::Reserved, &[1])])],
    ]
}

/// Accepts only a number of bytes; what exceeds them once fails, or everything from then on.
pub struct FullFmt {
    room: usize,
    once: bool,
    pub failed: bool,
    pub out: String,
}

impl FullFmt {
    pub fn new(room: usize, once: bool) -> Self {
        FullFmt { room, once, failed: false, out: String::new() }
    }
}

impl std::fmt::Write for FullFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.room.saturating_sub(self.out.len()) && !(self.once && self.failed) {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn c20(run: &mut Run) {
    let all = fields();
    let all = &all;
    let no_info = AudioInfo::default();
    let no_info = &no_info;
    run.explore("each field", 0, |c| {
        let i = c.all(all.len());
        let f = &all[i];
        let s = shown(f);
        let l = c.all_of(&s);
        let bg = c.all(2);
        let mut items = vec![(f.id.clone(), l.clone())];
        if bg == 1 {
            items.extend(background(all).into_iter().filter(|(id, _)| *id != f.id));
        }
        c.step(1);
        c.state(&items);
        check_summary(all, &items, no_info, "M4A ")
    });

    // combinations of fields
    let menus: Vec<Vec<Vec<Val>>> = all
        .iter()
        .map(|f| {
            let i = f.initials();
            let mut v = vec![vec![]];
            match &f.access {
                Access::Single { .. } => v.push(vec![Val::s("s")]),
                Access::Multi { .. } => v.extend([vec![Val::s("m")], vec![Val::s("m"), Val::s("n")]]),
                Access::Artwork => v.extend([vec![Val::new(Kind::Png, &[1])], vec![Val::new(Kind::Png, &[1]), Val::new(Kind::Bmp, &[1])]]),
                Access::Flag { .. } => v.extend([vec![Val::new(Kind::BeSigned, &[1])], vec![Val::new(Kind::BeSigned, &[0])]]),
                Access::Genre => v.extend([vec![Val::new(Kind::Reserved, &[0, 7])], vec![Val::new(Kind::Reserved, &[0, 7]), Val::new(Kind::Reserved, &[1, 7]), Val::new(Kind::Reserved, &[0, 8])]]),
                Access::Track | Access::Disc => v.extend([i[1].clone(), vec![Val::new(Kind::Reserved, &[0, 0, 0, 3, 0, 0])]]),
                _ => v.push(vec![Val::new(Kind::BeSigned, &[0, 2, 0, 1])]),
            }
            v
        })
        .collect();
    let menus = &menus;
    let fr = frees();
    let fr = &fr;
    let bound = run.tiered(4, 5);
    for (name, flip) in [("few fields", false), ("most fields", true)] {
        run.explore(name, bound, |c| {
            let mut items: Vec<(Id, Vec<Val>)> = Vec::new();
            for (f, m) in all.iter().zip(menus) {
                let k = c.pick(m.len());
                // by default absent or present
                let k = if flip { m.len() - 1 - k } else { k };
                items.push((f.id.clone(), m[k].clone()));
            }
            for (id, l) in c.pick_of(fr) {
                match items.iter_mut().find(|(i, _)| i == id) {
                    Some((_, x)) => *x = l.clone(),
                    None => items.push((id.clone(), l.clone())),
                }
            }
            c.step(1);
            c.state(&items);
            check_summary(all, &items, no_info, "M4A isom")
        });
    }

    // audio information
    run.explore("audio information", 0, |c| {
        let durations: Vec<Option<Duration>> = {
            let mut v = vec![None, Some(Duration::new(u64::MAX, 999_999_999))];
            for n in [0u64, 1, 999, 1_000, 1_001, 999_999, 1_000_000, 999_999_999, 1_000_000_000, 1_000_000_001] {
                v.push(Some(Duration::from_nanos(n)));
            }
            for s in [2u64, 59, 60, 61, 69, 70, 600, 3599, 3600, 3601, 3660, 3661, 35999, 36000, 359_999, 360_000] {
                v.push(Some(Duration::from_secs(s)));
                v.push(Some(Duration::new(s, 999_999_999)));
            }
            v
        };
        let rates = [None, Some(0), Some(1), Some(1023), Some(1024), Some(128_000), Some(131_072), Some(u32::MAX)];
        let info = AudioInfo {
            duration: *c.all_of(&durations),
            channel_config: channel_of(c.all(8) as u8),
            sample_rate: rate_of(13 - c.all(14) as u8),
            max_bitrate: *c.all_of(&rates),
            avg_bitrate: *c.all_of(&rates),
        };
        c.step(1);
        c.state(&format!("{:?}", info));
        check_summary(all, &[], &info, "")
    });

    // a formatter that accepts only so much
    run.explore("full formatters", run.tiered(1, 2), |c| {
        let mut t = Tag::new("M4A ".to_owned(), AudioInfo { duration: Some(Duration::from_millis(61_500)), channel_config: channel_of(2), sample_rate: rate_of(4), max_bitrate: Some(9), avg_bitrate: Some(8) }, Vec::new());
        for (f, m) in all.iter().zip(menus) {
            let k = c.pick(m.len());
            for v in &m[m.len() - 1 - k] {
                t.add_data(f.id.to_ident(), v.to_data());
            }
        }
        for (id, l) in &fr[1 + c.pick(fr.len() - 1)] {
            for v in l {
                t.add_data(id.to_ident(), v.to_data());
            }
        }
        let s = guard("formatting", || t.to_string())?;
        let once = c.all(2) == 1;
        let i = c.all(s.len() + 1);
        let mut w = FullFmt { room: i, once, failed: false, out: String::new() };
        let r = guard("formatting", || std::fmt::write(&mut w, format_args!("{}", t)))?;
        c.step(1);
        match (r, w.failed) {
            (Ok(()), true) => Err(format!("the formatter failed after {} of {} bytes, but formatting reports success", i, s.len())),
            (Err(_), false) => Err("formatting fails although the formatter doesn't".to_owned()),
            (Ok(()), false) => {
                ensure!(w.out == s, "formatting to different formatters differs");
                Ok(())
            }
            (Err(_), true) => Ok(()),
        }
    });

    let v = counts(run.tiered(12, 70), run.thorough());
    let v = &v;
    run.explore("many of everything", 0, |c| {
        let l = any_crowd(c, v);
        let t = must_read("read_from", &bytes_of(&l.nodes))?;
        let m = items_of(&t)?;
        c.step(1);
        c.state(&m);
        compare(all, &t, &m, &l.info.expected(), &l.ftyp)
    });

    // tags that were read from files
    run.explore("read from a file", run.tiered(3, 4), |c| {
        let l = layout(c, Vary { stored: true, media: false, audio: true });
        let mut t = must_read("read_from", &bytes_of(&l.nodes))?;
        // lines of values that contain line breaks can't be told apart
        t.retain_data(|_, d| !d.string().map_or(false, |s| s.contains('\n') || s.starts_with(' ')));
        let m = items_of(&t)?;
        c.step(1);
        c.state(&m);
        let info = l.info.expected();
        ensure!(*t.audio_info() == info, "audio information is {:?} instead of {:?}", t.audio_info(), info);
        compare(all, &t, &m, &info, t.filetype())
    });
}
