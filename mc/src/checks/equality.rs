//! C24: comparisons and copies.

use std::time::Duration;

use mp4ameta::{AudioInfo, ChannelConfig, Data, Fourcc, Img, ImgFmt, SampleRate};

use super::*;
use crate::mp4::bytes_of;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        level: "model_checking",
        technique: "exhaustive enumeration of pairs of values, audio informations and tags reached by all operation sequences up to a depth, and of all operations on one of two copies, against field by field comparison",
        note: "All pairs of values of a menu, all kinds with one byte different at each position of many lengths, all pairs of audio informations over boundary values, all pairs of tags reached by up to 3 operations from three origins, each operation on a copy or its original, tags read from all layouts within the bound.",
        rule: "a transition is one operation or comparison",
        assumptions: &["Whether tags that hold the same items with their identifiers in another order are equal is left open."],
        run: c24,
    }]
}

fn agree<T: PartialEq>(what: &str, a: &T, b: &T, want: bool) -> Verdict {
    ensure!((a == b) == want && (b == a) == want, "{}: compared as {} / {} although they are {}", what, a == b, b == a, if want { "the same" } else { "different" });
    ensure!((a != b) != want && (b != a) != want, "{}: != contradicts", what);
    Ok(())
}

fn copies<T: PartialEq + Clone>(what: &str, a: &T, same: impl Fn(&T) -> bool) -> Verdict {
    agree(what, a, a, true)?;
    let b = a.clone();
    ensure!(same(&b), "{}: the copy differs", what);
    agree(what, a, &b, true)?;
    let mut c = b.clone();
    c.clone_from(a);
    ensure!(same(&c), "{}: the assigned copy differs", what);
    Ok(())
}

fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "  ", "a", "A", "a ", " a", "a\0", "\0", "b", "ab", "ba", "\u{e9}", "e\u{301}", "\u{feff}a", "\u{1F600}", "\u{ff}", "\n", "\r\n"].iter().map(|s| s.to_string()).collect();
    v.extend([255, 256, 300].iter().map(|n| "x".repeat(*n)));
    v
}

fn values() -> Vec<Val> {
    KINDS.iter().flat_map(|k| texts().into_iter().map(move |t| Val::new(*k, t.as_bytes()))).collect()
}

fn info_key(i: &AudioInfo) -> (Option<Duration>, Option<u8>, Option<u32>, Option<u32>, Option<u32>) {
    (i.duration, i.channel_config.map(|c| c.channel_count()), i.sample_rate.map(|s| s.hz()), i.max_bitrate, i.avg_bitrate)
}

/// Everything the public interface shows of a tag.
#[derive(Clone, PartialEq, Debug)]
struct Shown {
    ftyp: String,
    info: (Option<Duration>, Option<u8>, Option<u32>, Option<u32>, Option<u32>),
    list: Vec<(Id, Val)>,
}

fn shown(t: &Tag) -> Shown {
    Shown { ftyp: t.filetype().to_owned(), info: info_key(t.audio_info()), list: t.data().map(|(i, d)| (Id::of(i), Val::of(d))).collect() }
}

/// Whether two tags have to be equal; None if only the order of identifiers differs.
fn have_to_be(a: &Shown, b: &Shown) -> Option<bool> {
    if a == b {
        return Some(true);
    }
    let map = |s: &Shown| {
        let mut m = Items::new();
        s.list.iter().for_each(|(i, v)| m.entry(i.clone()).or_default().push(v.clone()));
        m
    };
    if a.ftyp == b.ftyp && a.info == b.info && map(a) == map(b) {
        return None;
    }
    Some(false)
}

fn compare(what: &str, a: &Tag, b: &Tag) -> Verdict {
    match have_to_be(&shown(a), &shown(b)) {
        Some(want) => agree(what, a, b, want),
        None => {
            ensure!((a == b) == (b == a) && (a == b) != (a != b), "{}: the comparison contradicts itself", what);
            Ok(())
        }
    }
}

fn ids() -> [Id; 3] {
    [Id::fc("\u{a9}nam"), Id::free("com.apple.iTunes", "ISRC"), Id::fc("covr")]
}

const N_OPS: usize = 15;

fn apply(t: &mut Tag, op: usize) {
    let [a, b, c] = ids().map(|i| i.to_ident());
    match op {
        0 => t.add_data(a, Data::Utf8("x".into())),
        1 => t.add_data(a, Data::Utf16("x".into())),
        2 => t.add_data(a, Data::Utf8("y".into())),
        3 => t.add_data(b, Data::Utf8("x".into())),
        4 => t.add_data(c, Data::Png(vec![1])),
        5 => t.add_data(c, Data::Jpeg(vec![1])),
        6 => t.set_data(a, Data::Utf8("x".into())),
        7 => t.set_data(b, Data::Reserved(vec![b'x'])),
        8 => t.remove_data_of(&a),
        9 => drop(t.take_data_of(&b)),
        10 => t.retain_data(|_, d| !d.is_utf8()),
        11 => t.strings_mut_of(&a).for_each(|s| s.push('!')),
        12 => t.images_mut_of(&c).for_each(|i| i.data.push(0)),
        13 => t.clear(),
        _ => t.bytes_mut().for_each(|(_, b)| b.clear()),
    }
}

fn origins() -> Vec<Tag> {
    let info = AudioInfo { duration: Some(Duration::from_secs(5)), channel_config: Some(ChannelConfig::Stereo), sample_rate: Some(SampleRate::Hz44100), max_bitrate: Some(1), avg_bitrate: None };
    vec![Tag::default(), Tag::new("M4A ".to_owned(), AudioInfo::default(), Vec::new()), Tag::new("M4A ".to_owned(), info, Vec::new())]
}

fn c24(run: &mut Run) {
    let menu = values();
    run.explore("values", 0, |c| {
        let a = c.all_of(&menu);
        let da = a.to_data();
        c.state(a);
        c.label(format!("{:?}", a.kind));
        c.sample(|| format!("{:?} {:?}", a.kind, String::from_utf8_lossy(&a.bytes)));
        copies("value", &da, |d| Val::of(d) == *a)?;
        for b in &menu {
            c.step(1);
            agree("values", &da, &b.to_data(), a == b)?;
        }
        // changing a copy doesn't change the original
        let mut d = da.clone();
        if let Some(s) = d.string_mut() {
            s.push('z');
        }
        if let Some(b) = d.bytes_mut() {
            b.push(0);
        }
        if let Some(i) = d.image_mut() {
            i.data.push(0);
        }
        ensure!(Val::of(&da) == *a, "changing a copy of {:?} changed the original", a);
        agree("changed copy", &da, &d, false)
    });

    let lens: Vec<usize> = (1..=64).chain([127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    run.explore("one byte", 0, |c| {
        let kind = *c.all_of(&KINDS);
        let len = *c.all_of(&lens);
        let places: Vec<usize> = if len <= 1100 { (0..len).collect() } else { (0..64).chain(len / 2 - 2..len / 2 + 2).chain(len - 64..len).collect() };
        let bytes: Vec<u8> = (0..len).map(|i| b'a' + (i % 23) as u8).collect();
        let a = Val::new(kind, &bytes);
        let (data, mut tag) = (a.to_data(), Tag::default());
        tag.set_data(Fourcc(*b"abcd"), data.clone());
        c.state(&(kind, len));
        for p in places {
            c.step(2);
            let mut other = bytes.clone();
            other[p] = b'z';
            let d = Val::new(kind, &other).to_data();
            agree("values with one byte different", &data, &d, false)?;
            let mut t = Tag::default();
            t.set_data(Fourcc(*b"abcd"), d);
            agree("tags with one byte different", &tag, &t, false)?;
            let mut other = bytes.clone();
            other.insert(p, bytes[p]);
            agree("values of different length", &data, &Val::new(kind, &other).to_data(), false)?;
        }
        copies("value", &data, |d| Val::of(d) == a)?;
        copies("tag", &tag, |t| shown(t) == shown(&tag))
    });

    run.explore("images", 0, |c| {
        let fmts = [ImgFmt::Bmp, ImgFmt::Jpeg, ImgFmt::Png];
        let (x, y) = (c.all(3), c.all(3));
        let ts = texts();
        let (s, t) = (c.all_of(&ts).as_bytes(), c.all_of(&ts).as_bytes());
        c.step(4);
        agree("formats", &fmts[x], &fmts[y], x == y)?;
        let same = x == y && s == t;
        agree("borrowed images", &Img::new(fmts[x].clone(), s), &Img::new(fmts[y].clone(), t), same)?;
        let (a, b) = (Img::new(fmts[x].clone(), s.to_vec()), Img::new(fmts[y].clone(), t.to_vec()));
        agree("images", &a, &b, same)?;
        agree("values of images", &Data::from(a.clone()), &Data::from(b), same)?;
        copies("image", &a, |i| i.data == s && (i.fmt.is_bmp(), i.fmt.is_jpeg(), i.fmt.is_png()) == (x == 0, x == 1, x == 2))
    });

    let durations = [None, Some(Duration::ZERO), Some(Duration::new(0, 1)), Some(Duration::new(1, 0)), Some(Duration::new(1, 999_999_999)), Some(Duration::MAX)];
    let channels: Vec<Option<ChannelConfig>> = std::iter::once(None).chain((1..=7).map(channel_of)).collect();
    let rates: Vec<Option<SampleRate>> = std::iter::once(None).chain((0..=12).map(rate_of)).collect();
    let bitrates = [None, Some(0), Some(1), Some(128_000), Some(u32::MAX)];
    let pick = |c: &Ctx| AudioInfo { duration: *c.pick_of(&durations), channel_config: *c.pick_of(&channels), sample_rate: *c.pick_of(&rates), max_bitrate: *c.pick_of(&bitrates), avg_bitrate: *c.pick_of(&bitrates) };
    run.explore("audio information", run.tiered(5, 6), |c| {
        let a = pick(c);
        let b = pick(c);
        c.state(&format!("{:?}", (info_key(&a), info_key(&b))));
        c.step(3);
        let same = info_key(&a) == info_key(&b);
        c.label(if same { "same" } else { "different" });
        agree("audio informations", &a, &b, same)?;
        copies("audio information", &a, |i| info_key(i) == info_key(&a))?;
        let (x, y) = (Tag::new("M4A ".to_owned(), a.clone(), Vec::new()), Tag::new("M4A ".to_owned(), b, Vec::new()));
        agree("tags with audio information", &x, &y, same)?;
        copies("tag", &x, |t| info_key(t.audio_info()) == info_key(&a))
    });

    run.explore("file types", 0, |c| {
        let ts = texts();
        let (s, t) = (c.all_of(&ts), c.all_of(&ts));
        c.step(1);
        let tag = |s: &str| Tag::new(s.to_owned(), AudioInfo::default(), Vec::new());
        agree("tags with file types", &tag(s), &tag(t), s == t)?;
        copies("tag", &tag(s), |x| x.filetype() == s)
    });

    run.explore("default tag", 0, |c| {
        let t = Tag::default();
        c.step(1);
        let none = Shown { ftyp: String::new(), info: info_key(&AudioInfo { duration: None, channel_config: None, sample_rate: None, max_bitrate: None, avg_bitrate: None }), list: Vec::new() };
        ensure!(shown(&t) == none, "the default tag is {:?}", shown(&t));
        ensure!(t.is_empty(), "the default tag isn't empty");
        agree("empty tags", &t, &Tag::new(String::new(), AudioInfo::default(), Vec::new()), true)
    });

    // all pairs of tags
    let depth = 3;
    let mut tags = Vec::new();
    for o in 0..origins().len() {
        let mut level: Vec<Tag> = vec![origins().swap_remove(o)];
        tags.extend(level.iter().cloned());
        for _ in 0..depth {
            level = level
                .iter()
                .flat_map(|t| {
                    (0..N_OPS).map(move |op| {
                        let mut t = rebuilt(t);
                        apply(&mut t, op);
                        t
                    })
                })
                .collect();
            tags.extend(level.iter().map(rebuilt));
        }
    }
    let all: Vec<(Tag, Shown)> = tags.into_iter().map(|t| { let s = shown(&t); (t, s) }).collect();
    run.explore("pairs of tags", 0, |c| {
        let (a, sa) = c.all_of(&all);
        c.state(&format!("{:?}", sa));
        c.sample(|| format!("{:?}", sa));
        let mut n = [0u64; 3];
        for (b, sb) in &all {
            let want = have_to_be(sa, sb);
            n[want.map_or(2, |w| w as usize)] += 1;
            if let Some(w) = want {
                agree("tags", a, b, w)?;
            }
        }
        c.step(all.len() as u64);
        c.label(if n[1] > 1 { "several the same" } else { "no other the same" });
        copies("tag", a, |t| shown(t) == *sa)
    });

    // changes of a copy and of the original
    let depth = run.tiered(4, 5);
    run.explore("copies", 0, |c| {
        let mut t = origins().swap_remove(c.all(3));
        for _ in 0..depth - 1 {
            match c.all(N_OPS + 1) {
                0 => break,
                op => apply(&mut t, op - 1),
            }
        }
        let before = shown(&t);
        let mut copy = match c.all(2) {
            0 => t.clone(),
            _ => {
                let mut o = origins().swap_remove(2);
                apply(&mut o, 0);
                o.clone_from(&t);
                o
            }
        };
        ensure!(shown(&copy) == before, "the copy is {:?} instead of {:?}", shown(&copy), before);
        let op = c.all(N_OPS);
        c.step(2);
        c.state(&format!("{:?}{}", before, op));
        let mut want = rebuilt(&t);
        apply(&mut want, op);
        if c.all(2) == 0 {
            apply(&mut copy, op);
            ensure!(shown(&t) == before, "changing the copy changed the original from {:?} to {:?}", before, shown(&t));
            ensure!(shown(&copy) == shown(&want), "the copy changes differently");
        } else {
            apply(&mut t, op);
            ensure!(shown(&copy) == before, "changing the original changed the copy from {:?} to {:?}", before, shown(&copy));
            ensure!(shown(&t) == shown(&want), "the copied tag changes differently");
        }
        compare("a tag and its changed copy", &t, &copy)
    });

    // tags of files
    run.explore("tags of files", run.tiered(3, 4), |c| {
        let l = layout(c, EVERYTHING);
        let b = bytes_of(&l.nodes);
        let t = must_read("read_from", &b)?;
        c.state(&b);
        c.step(5);
        compare("read twice", &t, &must_read("read_from", &b)?)?;
        compare("read and rebuilt", &t, &rebuilt(&t))?;
        compare("of a dump", &t, &must_read("read of a dump", &dumped(&t)?)?)?;
        compare("without audio information", &t, &tag_of(&[]))?;
        copies("tag", &t, |x| shown(x) == shown(&t))?;
        match written("write_to", &t, &b)? {
            Ok(w) => compare("written and read", &t, &must_read("read after a write", &w)?),
            Err(_) => Ok(()),
        }
    });
}

/// The same tag, built anew out of what can be seen of it.
fn rebuilt(t: &Tag) -> Tag {
    let i = t.audio_info();
    let info = AudioInfo { duration: i.duration, channel_config: i.channel_config, sample_rate: i.sample_rate, max_bitrate: i.max_bitrate, avg_bitrate: i.avg_bitrate };
    let mut n = Tag::new(t.filetype().to_owned(), info, Vec::new());
    for (i, d) in t.data() {
        n.add_data(Id::of(i).to_ident(), Val::of(d).to_data());
    }
    n
}
