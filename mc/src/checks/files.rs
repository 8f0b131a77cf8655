//! C01, C02, C03, C09, C10: reading and writing well-formed files.

use super::*;
use crate::mp4::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "model_checking",
            technique: "bounded exhaustive exploration of file layouts x tags on the real writer and reader, with an independent decoder as oracle",
            note: "All combinations of file layout, stored metadata and tag content with up to N deviations from an ordinary file, and complete sweeps of value sizes, item counts and moved sizes; every execution writes to a real (in-memory) file and is decoded independently.",
            rule: "an execution builds one well-formed file, writes one tag to it and decodes the result; states are the distinct resulting files",
            assumptions: &["the harness' own atom encoder and strict decoder are right"],
            run: c01,
        },
        Check {
            id: "C02",
            level: "model_checking",
            technique: "bounded exhaustive exploration of file layouts x tags, old/new atom tree relation as oracle",
            note: "Same space as C01; the whole old and new files are parsed strictly by an independent parser and compared atom by atom.",
            rule: "an execution builds one well-formed file, writes one tag to it and relates the atom trees; states are the distinct resulting files",
            assumptions: &["the harness' own atom encoder and strict parser are right"],
            run: c02,
        },
        Check {
            id: "C03",
            level: "model_checking",
            technique: "bounded exhaustive exploration of media, track and table arrangements x length changes, addressed byte tracked through the write",
            note: "All arrangements with up to N deviations, the full product of media arrangement x table kind x table place x length change, all table lengths around buffer sizes, and sparse files with offsets around 2^31, 2^32 and beyond.",
            rule: "an execution builds a file whose chunk offsets address known bytes, writes a tag and checks the address of every entry; states are the distinct resulting files",
            assumptions: &["the harness' own atom encoder and strict parser are right"],
            run: c03,
        },
        Check {
            id: "C09",
            level: "model_checking",
            technique: "explicit-state closure of write histories on real files (differential against a direct write)",
            note: "For every layout within the bound, all pairs of successive writes (and read-then-write-back) lead to the file a direct write yields; since the reached states are exactly those of single writes, this closes the state space for histories of any length over the tag menu.",
            rule: "an execution takes one layout and one first tag and applies every operation to the file reached; states are the distinct files, transitions the writes",
            assumptions: &["histories use tags of the menu"],
            run: c09,
        },
        Check {
            id: "C10",
            level: "model_checking",
            technique: "bounded exhaustive exploration of file layouts and item list encodings on the real reader",
            note: "All combinations of arrangement, padding, head sizes, item encodings and decoys with up to N deviations.",
            rule: "an execution encodes one modelled file, reads it and compares with the model; states are the distinct files",
            assumptions: &["the harness' own atom encoder is right"],
            run: c10,
        },
    ]
}

struct Written {
    old: Vec<u8>,
    new: Vec<u8>,
    op: Vec<P>,
    np: Result<Vec<P>, String>,
    tag: Items,
}

fn write_nodes(c: &Ctx, nodes: &[Node], tag: &Tag, items: Items) -> Result<Written, String> {
    let w = write_bytes(bytes_of(nodes), tag, items)?;
    c.step(1);
    c.state(&w.new);
    Ok(w)
}

fn write_bytes(old: Vec<u8>, tag: &Tag, items: Items) -> Result<Written, String> {
    let op = match parse(&old[..]) {
        Ok(p) => p,
        Err(e) => harness_error(&format!("generated file is malformed: {}", e)),
    };
    let new = match written("write_to", tag, &old)? {
        Ok(n) => n,
        Err(e) => return Err(format!("write_to failed: {}", e)),
    };
    let np = parse(&new[..]);
    Ok(Written { old, new, op, np, tag: items })
}

fn aspect_items(w: &Written) -> Verdict {
    let t = must_read("reading the written file", &w.new)?;
    check_items("items read back", &t, &w.tag)?;
    let np = w.np.as_ref().map_err(|e| format!("written file is malformed: {}", e))?;
    let ilst = find_ilst(np).ok_or("no item list in the written file")?;
    same_items("items stored", &stored_items(&w.new[..], ilst)?, &w.tag)
}

fn aspect_tree(w: &Written) -> Verdict {
    let np = w.np.as_ref().map_err(|e| format!("written file is malformed: {}", e))?;
    preserved(&w.old[..], &w.op, &w.new[..], np)?;
    let ilst = find_ilst(np).ok_or("no item list in the written file")?;
    for i in ilst.kids() {
        ensure!(i.cc != *b"free", "item list contains padding");
    }
    same_items("items stored", &stored_items(&w.new[..], ilst)?, &w.tag)
}

fn aspect_offsets(c: &Ctx, w: &Written) -> Verdict {
    let np = w.np.as_ref().map_err(|e| format!("written file is malformed: {}", e))?;
    let n = offsets_kept(&w.old[..], &w.op, &w.new[..], np)?;
    c.label(if n == 0 { "no offsets" } else { "offsets kept" });
    Ok(())
}

fn describe(l: &Layout, tag: usize, w: &Written) -> String {
    let top: Vec<String> = w.op.iter().map(|p| format!("{}:{}", p.name(), p.len)).collect();
    let moov = w.op.iter().find(|p| p.cc == *b"moov").map(|m| m.kids().iter().map(|k| k.name()).collect::<Vec<_>>().join(","));
    format!("[{}] moov[{}] items {} -> tag {} gives {} bytes", top.join(" "), moov.unwrap_or_default(), l.items.len(), tag, w.new.len())
}

/// Files with many of something, to which many or few items are written.
fn crowds(run: &mut Run, aspect: impl Fn(&Ctx, &Written) -> Verdict + Sync) {
    let v = counts(run.tiered(40, 70), run.thorough());
    let v = &v;
    run.explore("many of everything", 0, |c| {
        let l = any_crowd(c, v);
        let (tag, items) = tag_n(*c.all_of(&[0usize, 1]));
        let w = write_nodes(c, &l.nodes, &tag, items)?;
        c.sample(|| format!("{} atoms on top, {} bytes -> {}", l.nodes.len(), w.old.len(), w.new.len()));
        aspect(c, &w)
    });
}

/// A written file that is too long for the memory.
struct Vast {
    before: File,
    op: Vec<P>,
    after: File,
    np: Vec<P>,
    tag: Items,
}

/// Files of 2^31 to 2^62 bytes to which an item list is written; what is behind it is short.
fn vast_files(run: &mut Run, aspect: impl Fn(&Vast) -> Verdict + Sync) {
    run.explore("files of any length", 0, |c| {
        let (l, what) = vast(c, VAST_BEHIND);
        let t = *c.all_of(&[0usize, 1, 5]);
        let (tag, items) = tag_n(t);
        let img = encode(&l.nodes);
        let after = img.to_file();
        let op = match parse(&after) {
            Ok(p) => p,
            Err(e) => harness_error(&format!("generated file is malformed: {}", e)),
        };
        must_write("write_to", &tag, &after)?;
        c.step(1);
        c.state(&(&what, t));
        c.sample(|| format!("{}: {} -> {} bytes", what, img.len, sys::len(&after)));
        let np = parse(&after).map_err(|e| format!("written file is malformed: {}", e))?;
        aspect(&Vast { before: img.to_file(), op, after, np, tag: items })
    });
}

pub fn read_long(what: &str, f: &File) -> Result<Tag, String> {
    sys::rewind(f);
    guard(what, || Tag::read_from(&mut std::io::BufReader::new(f)))?.map_err(|e| format!("{} failed: {}", what, e))
}

/// Each byte that says nothing about items and offsets has each value.
fn neutral_bytes(run: &mut Run, aspect: impl Fn(&Ctx, &Written) -> Verdict + Sync) {
    let n = neutral();
    let (tag, items) = tag_n(4);
    run.explore("bytes without meaning", 0, |c| n.vary(c, 0, |b| aspect(c, &write_bytes(b.to_vec(), &tag, items.clone())?)));
}

/// Atoms of all known kinds in places where they aren't known.
fn strays(run: &mut Run, aspect: impl Fn(&Ctx, &Written) -> Verdict + Sync) {
    run.explore("misplaced atoms", 0, |c| {
        let (l, what) = misplaced(c);
        let (tag, items) = tag_n(*c.all_of(&[0usize, 1]));
        let w = write_nodes(c, &l.nodes, &tag, items)?;
        c.sample(|| what.clone());
        aspect(c, &w)
    });
}

fn layouts(run: &mut Run, name: &str, bound: usize, vary: Vary, aspect: impl Fn(&Ctx, &Layout, &Written) -> Verdict + Sync) {
    run.explore(name, bound, |c| {
        let l = layout(c, vary);
        let t = c.pick(N_TAGS);
        let (tag, items) = tag_n(t);
        let w = write_nodes(c, &l.nodes, &tag, items)?;
        c.sample(|| describe(&l, t, &w));
        aspect(c, &l, &w)
    });
}

// ---------------------------------------------------------------------------------------------
// C01

fn c01(run: &mut Run) {
    vast_files(run, |w| check_items("items read back", &read_long("reading the written file", &w.after)?, &w.tag));
    let b = run.tiered(3, 4);
    layouts(run, "layouts", b, EVERYTHING, |_, _, w| aspect_items(w));
    sizes(run, |_, w| aspect_items(w));
    strays(run, |_, w| aspect_items(w));
    neutral_bytes(run, |_, w| aspect_items(w));
    let (codes, free) = (codes(), free_ids());
    run.explore("identifiers", 0, |c| {
        let l = identified(c, &codes, &free);
        let nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])]));
        let w = write_nodes(c, &nodes, &tag_of(&l), map_of(&l))?;
        c.sample(|| show_items(&w.tag));
        aspect_items(&w)
    });
    let (marks, ids) = (marks(), known_ids());
    let onto = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])]));
    run.explore("marked values", 0, |c| match marked(c, &marks) {
        Some(l) => aspect_items(&write_nodes(c, &onto, &tag_of(&l), map_of(&l))?),
        None => Ok(()),
    });
    run.explore("values of known identifiers", 0, |c| match particular(c, &ids, &marks) {
        Some(l) => aspect_items(&write_nodes(c, &onto, &tag_of(&l), map_of(&l))?),
        None => Ok(()),
    });
    differences(run, |_, w| aspect_items(w));
    masses(run, |_, w| aspect_items(w));
    crowds(run, |_, w| aspect_items(w));
    item_shapes(run);
    run.explore("characters", 0, |c| {
        let l = any_sweep(c);
        let nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])]));
        let w = write_nodes(c, &nodes, &tag_of(&l), map_of(&l))?;
        aspect_items(&w)?;
        Ok(())
    });
    // lengths that need 64-bit heads are covered by C16 (dump) and, for the file, here
    huge_items(run);
}

/// Value sizes, item counts and lengths of what is moved, around all buffer sizes.
fn sizes(run: &mut Run, aspect: impl Fn(&Ctx, &Written) -> Verdict + Sync) {
    // every length of a single value
    let n = run.tiered(700, 4200);
    run.explore("value sizes", 0, |c| {
        let n = c.all(n);
        let kind = *c.all_of(&[Kind::Utf8, Kind::Png, Kind::Utf16]);
        let old = *c.all_of(&[0usize, 300]);
        let s: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
        let tag = vec![(Id::fc("\u{a9}nam"), vec![Val::new(kind, &s)])];
        let nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s(&"o".repeat(old))])]));
        let w = write_nodes(c, &nodes, &tag_of(&tag), map_of(&tag))?;
        c.sample(|| format!("{:?} value of {} units over a value of {} bytes", kind, n, old));
        aspect(c, &w)
    });
    // sizes around the buffer sizes and powers of two
    let mut around: Vec<usize> = Vec::new();
    let reach = run.tiered(24, 80) as i64;
    for base in [1024i64, 4096, 8192, 16384, 32768, 65536] {
        for d in -reach..=reach {
            around.push((base + d) as usize);
        }
    }
    let around = &around;
    run.explore("sizes around buffers", 0, |c| {
        let n = *c.all_of(around);
        // which part of the file has this size
        let part = c.all(10);
        let mut tag = vec![(Id::fc("\u{a9}nam"), vec![Val::s("t")])];
        let mut old = vec![(Id::fc("\u{a9}cmt"), vec![Val::s("old")])];
        let mut media = 40;
        let mut front = 0;
        match part {
            0 => tag[0].1 = vec![Val::new(Kind::Bmp, &vec![0x5A; n])],
            1 => old[0].1 = vec![Val::new(Kind::Bmp, &vec![0x5A; n])],
            2 => media = n,
            3 => front = n,
            4 => tag[0].0 = Id::free("mean", &"n".repeat(n)),
            5 => tag[0].0 = Id::free(&"m".repeat(n), "name"),
            6 => old[0].0 = Id::free("mean", &"n".repeat(n)),
            7 => old[0].0 = Id::free(&"m".repeat(n), "name"),
            8 => tag[0].1 = vec![Val::s16(&"\u{e9}".repeat(n / 2)), Val::s(&"\u{20ac}".repeat(n / 3)), Val::s16(&"\u{1F600}".repeat(n / 4))],
            _ => {
                old[0].1 = vec![Val::new(Kind::Bmp, &vec![0x5A; n])];
                tag[0].1 = vec![Val::new(Kind::Png, &vec![0x5A; n + 1])];
            }
        }
        let mut nodes = small_file(ilst_of(&old));
        nodes[2] = mdat(media, 9);
        if front > 0 {
            nodes.insert(1, filler(front - 8));
        }
        let w = write_nodes(c, &nodes, &tag_of(&tag), map_of(&tag))?;
        c.sample(|| format!("part {} has {} bytes", part, n));
        aspect(c, &w)
    });
    // number of items and of values
    let n = counts(run.tiered(70, 400), run.thorough());
    let n = &n;
    run.explore("item counts", 0, |c| {
        let (mut items, mut values) = (*c.all_of(n), *c.all_of(&[1usize, 2, 5]));
        if c.all(2) == 1 {
            (items, values) = (values, items.max(1));
        }
        let tag: Vec<(Id, Vec<Val>)> = (0..items)
            .map(|i| {
                let v = (0..values).map(|k| Val::s(&format!("{}.{}", i, k))).collect();
                let id = match i % 3 {
                    0 => Id::Fc([b'a', b'0', (i / 256) as u8, i as u8]),
                    1 => Id::free("mean", &format!("name{}", i)),
                    _ => Id::free(&format!("mean{}", i), "name"),
                };
                (id, v)
            })
            .collect();
        let nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])]));
        let w = write_nodes(c, &nodes, &tag_of(&tag), map_of(&tag))?;
        c.sample(|| format!("{} items of {} values", items, values));
        aspect(c, &w)
    });
}

/// More items, values and other atoms than 16 bits count.
fn masses(run: &mut Run, aspect: impl Fn(&Ctx, &Written) -> Verdict + Sync) {
    run.explore_t("more than 65536", 0, 200, |c| {
        let which = c.all(CROWDS + 2);
        let n = 65_537;
        let (nodes, (tag, items)) = if which < CROWDS {
            (crowd(which, n, true).nodes, tag_n(0))
        } else {
            let l: Vec<(Id, Vec<Val>)> = if which == CROWDS {
                (0..n).map(|i| (Id::Fc([b'a', (i >> 16) as u8, (i >> 8) as u8, i as u8]), vec![Val::new(Kind::BeSigned, &[i as u8])])).collect()
            } else {
                vec![(Id::free("m", "n"), (0..n).map(|i| Val::s(&i.to_string())).collect())]
            };
            (small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])])), (tag_of(&l), map_of(&l)))
        };
        let w = write_nodes(c, &nodes, &tag, items)?;
        c.sample(|| format!("crowd {} of {}: {} -> {} bytes", which, n, w.old.len(), w.new.len()));
        aspect(c, &w)
    });
}

/// All small changes of the length, whatever is missing.
fn differences(run: &mut Run, aspect: impl Fn(&Ctx, &Written) -> Verdict + Sync) {
    let n = run.tiered(300, 1100);
    run.explore("length differences", 0, |c| {
        // content of the old list, of the metadata around it
        let old = c.all(n);
        let around = c.all(9);
        let wide = c.all(2) == 1;
        let tag = *c.all_of(&[1usize, 3]);
        let plan = *c.all_of(&["Mm", "mM", "mMm"]);
        let last = c.all(2) == 1;
        let id = Id::fc("\u{a9}cmt");
        let ilst = match old {
            0 => kids("ilst", vec![]),
            _ if old < 25 => kids("ilst", vec![filler(old - 1)]),
            _ => kids("ilst", vec![item(&id, &[Val::s(&"o".repeat(old - 25))])]),
        };
        let ilst = ilst.ext(wide);
        let h = hdlr(b"mdir");
        let udta = match around {
            0 => Some(vec![meta(vec![h, ilst])]),
            1 => Some(vec![meta(vec![ilst, h])]),
            2 => Some(vec![meta(vec![ilst])]),
            3 => Some(vec![meta(vec![leaf("hdlr", &[]), ilst, filler(2)]), leaf("name", b"n")]),
            4 => Some(vec![meta(vec![h.ext(true), ilst])]),
            5 => Some(vec![meta(vec![filler(old)]).ext(wide)]),
            6 => Some(vec![meta(vec![h, filler(old)]).ext(wide)]),
            7 => Some(vec![filler(old)]),
            _ => None,
        };
        let stco = Node { cc: *b"stco", ext: false, body: Body::Stco(vec![Target::Media(0, 0), Target::Media(0, 5)]) };
        let co64 = Node { cc: *b"co64", ext: false, body: Body::Co64(vec![Target::Media(0, 1), Target::Media(plan.len() - 2, 2)]) };
        let mut moov = vec![leaf("mvhd", &mvhd_bytes(0, 1, 1)), trak(vec![stco]), trak(vec![co64])];
        if let Some(u) = udta {
            moov.insert(if last { 3 } else { 0 }, kids("udta", u));
        }
        let mut nodes = vec![leaf("ftyp", FTYP.as_bytes())];
        for (i, b) in plan.bytes().enumerate() {
            nodes.push(match b {
                b'M' => kids("moov", moov.clone()),
                _ => mdat(30, i as u8),
            });
        }
        let (tag, items) = tag_n(tag);
        let w = write_nodes(c, &nodes, &tag, items)?;
        c.label(match w.new.len().cmp(&w.old.len()) {
            std::cmp::Ordering::Less => "shorter",
            std::cmp::Ordering::Equal => "same length",
            std::cmp::Ordering::Greater => "longer",
        });
        aspect(c, &w)
    });
}

/// All tags of up to three values over a small alphabet of identifiers and values.
fn item_shapes(run: &mut Run) {
    let ids = [
        Id::fc("\u{a9}nam"),
        Id::fc("----"),
        Id::Fc([0, 1, 254, 255]),
        Id::free("com.apple.iTunes", "ISRC"),
        Id::free("ISRC", "com.apple.iTunes"),
        Id::free("", "n"),
        Id::free("m\u{20ac}", ""),
    ];
    let mut vals = Vec::new();
    for k in KINDS {
        vals.push(Val::new(k, b""));
        vals.push(Val::new(k, b"v"));
    }
    vals.push(Val::s16("\u{10FFFF}\u{FFFD}"));
    vals.push(Val::s("\u{0}"));
    let n = run.tiered(2, 3);
    let (ids, vals) = (&ids, &vals);
    run.explore("tag shapes", 0, |c| {
        let count = c.all(n + 1);
        let mut l = Vec::new();
        for _ in 0..count {
            l.push((c.all_of(ids).clone(), vec![c.all_of(vals).clone()]));
        }
        let tag = tag_of(&l);
        let nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])]));
        let w = write_nodes(c, &nodes, &tag, map_of(&l))?;
        c.sample(|| show_items(&w.tag));
        aspect_items(&w)
    });
}

/// Items and values of many megabytes.
fn huge_items(run: &mut Run) {
    let mb: &[usize] = run.tiered(&[17, 33][..], &[17, 33, 65, 129, 257][..]);
    run.explore_t("large items", 0, 300, |c| {
        let n = *c.all_of(mb) * 1024 * 1024 + c.all(2);
        let parts = *c.all_of(&[1usize, 3]);
        let id = if c.all(2) == 0 { Id::fc("covr") } else { Id::free("a", "b") };
        let v: Vec<Val> = (0..parts).map(|p| Val::new(Kind::Png, &vec![p as u8 + 1; n / parts])).collect();
        let l = vec![(id, v)];
        let tag = tag_of(&l);
        let nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("old")])]));
        let old = bytes_of(&nodes);
        with_file(&old, |f| {
            must_write("write_to", &tag, f)?;
            sys::rewind(f);
            let t = match guard("read_from", || Tag::read_from(&mut std::io::BufReader::new(f)))? {
                Ok(t) => t,
                Err(e) => return Err(format!("read_from failed: {}", e)),
            };
            c.step(1);
            c.state(&(n, parts));
            check_items("items read back", &t, &map_of(&l))
        })
    });
}

// ---------------------------------------------------------------------------------------------
// C02

fn c02(run: &mut Run) {
    vast_files(run, |w| {
        preserved(&w.before, &w.op, &w.after, &w.np)?;
        let ilst = find_ilst(&w.np).ok_or("no item list in the written file")?;
        same_items("items stored", &stored_items(&w.after, ilst)?, &w.tag)
    });
    let b = run.tiered(3, 4);
    layouts(run, "layouts", b, EVERYTHING, |_, _, w| aspect_tree(w));
    sizes(run, |_, w| aspect_tree(w));
    strays(run, |_, w| aspect_tree(w));
    neutral_bytes(run, |_, w| aspect_tree(w));
    differences(run, |_, w| aspect_tree(w));
    crowds(run, |_, w| aspect_tree(w));
    growth_limits(run);
}

/// Enclosing atoms at the limit of their 32-bit length: the write is refused or the length is right.
fn growth_limits(run: &mut Run) {
    run.explore_t("lengths around 32 bits", 0, 300, |c| {
        // the movie is filled up with a hole so that it ends close to 4 GiB
        let over: i64 = *c.all_of(&[-1i64, 0, 1]);
        let which = c.all(3);
        let place = c.all(2);
        let tag = vec![(Id::fc("\u{a9}nam"), vec![Val::s("a longer title")])];
        let old_ilst = ilst_of(&[(Id::fc("\u{a9}nam"), vec![Val::s("short")])]);
        let grow = ilst_of(&tag).len() as i64 - old_ilst.len() as i64;
        let make = |hole: u64, ext: bool| {
            let big = Node { cc: *b"free", ext: false, body: Body::Hole(hole, vec![1; 9], vec![2; 9]) };
            let mut meta_kids = vec![hdlr(b"mdir"), old_ilst.clone()];
            let mut udta_kids = Vec::new();
            let mut moov_kids = vec![leaf("mvhd", &mvhd_bytes(0, 1, 1))];
            match which {
                0 => meta_kids.insert(0, big),
                1 => udta_kids.push(big),
                _ => moov_kids.push(big),
            }
            udta_kids.push(meta(meta_kids).ext(ext && which < 1));
            moov_kids.push(kids("udta", udta_kids).ext(ext && which < 2));
            let m = kids("moov", moov_kids).ext(ext);
            let f = leaf("ftyp", FTYP.as_bytes());
            if place == 0 {
                vec![f, m]
            } else {
                vec![f, m, mdat(50, 1)]
            }
        };
        let ext = c.all(2) == 1;
        let sized = |nodes: &[Node]| nodes[1].len();
        // the new length of moov is 2^32 - 1 + over
        let base = sized(&make(100, ext));
        let hole = (u32::MAX as i64 + over - grow - base as i64 + 100) as u64;
        let nodes = make(hole, ext);
        let img = encode(&nodes);
        let f = img.to_file();
        let op = parse(&f)?;
        let r = write_file("write_to", &tag_of(&tag), &f)?;
        c.step(1);
        c.state(&(over, which, place, ext));
        let fits = over <= 0 || ext;
        c.sample(|| format!("moov of {} bytes grows by {}: {}", op[1].len, grow, if r.is_ok() { "written" } else { "refused" }));
        match r {
            Ok(()) => {
                ensure!(fits, "a length of {} bytes was written to a 32-bit head", op[1].len as i64 + grow);
                c.label("written");
                let np = parse(&f).map_err(|e| format!("written file is malformed: {}", e))?;
                // compared against the unwritten image
                let before = img.to_file();
                preserved(&before, &op, &f, &np)?;
                let ilst = find_ilst(&np).ok_or("no item list in the written file")?;
                same_items("items stored", &stored_items(&f, ilst)?, &map_of(&tag))
            }
            Err(e) => {
                ensure!(!fits, "refused though the length fits: {}", e);
                c.label("refused");
                ensure!(sys::len(&f) == img.len, "refused, but the file has {} bytes instead of {}", sys::len(&f), img.len);
                for (p, s) in &img.segs {
                    ensure!(sys::get_at(&f, *p, s.len()) == *s, "refused, but bytes at {} were changed", p);
                }
                Ok(())
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C03

fn c03(run: &mut Run) {
    vast_files(run, |w| offsets_kept(&w.before, &w.op, &w.after, &w.np).map(|_| ()));
    let b = run.tiered(3, 4);
    layouts(run, "layouts", b, Vary { media: true, stored: true, audio: false }, |c, _, w| aspect_offsets(c, w));
    arrangements(run);
    strays(run, aspect_offsets);
    neutral_bytes(run, aspect_offsets);
    crowds(run, aspect_offsets);
    differences(run, aspect_offsets);
    masses(run, aspect_offsets);
    table_lengths(run);
    sparse(run);
}

/// The full product of what decides about offsets.
fn arrangements(run: &mut Run) {
    let extra = run.thorough();
    run.explore("arrangements", 0, |c| {
        let top = *c.all_of(&["Mm", "mM", "mMm", "Mmm", "mmM", "mMmm", "mmMm", "mfMfm"]);
        let order = *c.all_of(&["tu", "ut", "Tut", "uTt"]);
        let kinds = c.all(6);
        let ext = if extra { c.all(2) == 1 } else { false };
        // item list: present (long, short, empty), missing at each level
        let present = c.all(6);
        let tag = *c.all_of(&[0usize, 1, 2, 6, 12]);
        let n = top.bytes().filter(|b| *b == b'm').count();
        let mut targets = Vec::new();
        for m in 0..n {
            targets.extend([Target::Media(m, 0), Target::Media(m, 1), Target::Media(m, 29)]);
        }
        let stco = |t: &[Target]| Node { cc: *b"stco", ext, body: Body::Stco(t.to_vec()) };
        let co64 = |t: &[Target]| Node { cc: *b"co64", ext, body: Body::Co64(t.to_vec()) };
        let rev: Vec<Target> = targets.iter().rev().copied().collect();
        let tracks = match kinds {
            0 => vec![trak(vec![stco(&targets)])],
            1 => vec![trak(vec![co64(&targets)])],
            2 => vec![trak(vec![stco(&targets)]), trak(vec![co64(&rev)])],
            3 => vec![trak(vec![co64(&rev)]), trak(vec![stco(&targets)]), trak(vec![stco(&rev)])],
            4 => vec![trak(vec![stco(&rev), co64(&targets)]), trak(vec![])],
            _ => vec![trak(vec![stco(&[])]), trak(vec![co64(&targets), stco(&targets)])],
        };
        let old = ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s(&"c".repeat(100))])]);
        let udta = match present {
            0 => Some(kids("udta", vec![meta(vec![hdlr(b"mdir"), old])])),
            1 => Some(kids("udta", vec![meta(vec![kids("ilst", vec![]), filler(40), hdlr(b"mdir")])])),
            2 => Some(kids("udta", vec![meta(vec![hdlr(b"mdir")]), filler(3)])),
            3 => Some(kids("udta", vec![filler(3)])),
            4 => None,
            _ => Some(kids("udta", vec![leaf("name", b"x"), meta(vec![old])])),
        };
        let mut moov = vec![leaf("mvhd", &mvhd_bytes(0, 1, 1))];
        let mut udta = udta;
        let mut tracks = tracks;
        for b in order.bytes() {
            match b {
                b'u' => moov.extend(udta.take()),
                b'T' => moov.push(tracks.remove(0)),
                _ => moov.append(&mut tracks),
            }
        }
        let mut moov = Some(kids("moov", moov));
        let mut nodes = vec![leaf("ftyp", FTYP.as_bytes())];
        let mut m = 0;
        for b in top.bytes() {
            match b {
                b'M' => nodes.extend(moov.take()),
                b'm' => {
                    nodes.push(mdat(30, m));
                    m += 1;
                }
                _ => nodes.push(filler(14)),
            }
        }
        let (tag, items) = tag_n(tag);
        let w = write_nodes(c, &nodes, &tag, items)?;
        c.sample(|| format!("top {} order {} tables {} metadata {}", top, order, kinds, present));
        aspect_offsets(c, &w)
    });
}

/// Every table length around the buffer sizes, tables before and after the item list.
fn table_lengths(run: &mut Run) {
    let mut v: Vec<usize> = (0..run.tiered(40, 300)).collect();
    let reach = run.tiered(3, 16);
    for base in [256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072] {
        v.extend(base - reach..=base + reach);
    }
    let v = &v;
    run.explore("table lengths", 0, |c| {
        let n = *c.all_of(v);
        let wide = c.all(2) == 1;
        let before = c.all(2) == 1;
        let tag = *c.all_of(&[0usize, 1]);
        let t: Vec<Target> = (0..n).map(|i| Target::Media(i % 2, (i * 7 % 30) as u64)).collect();
        let table = if wide { Node { cc: *b"co64", ext: false, body: Body::Co64(t) } } else { Node { cc: *b"stco", ext: false, body: Body::Stco(t) } };
        let udta = kids("udta", vec![meta(vec![hdlr(b"mdir"), ilst_of(&[(Id::fc("\u{a9}nam"), vec![Val::s("t")])])])]);
        let tr = trak(vec![table]);
        let moov = if before { vec![tr, udta] } else { vec![udta, tr] };
        let nodes = vec![leaf("ftyp", b"isom"), mdat(30, 1), kids("moov", moov), mdat(30, 2)];
        let (tag, items) = tag_n(tag);
        let w = write_nodes(c, &nodes, &tag, items)?;
        c.sample(|| format!("{} entries of {} bits {} the item list", n, if wide { 64 } else { 32 }, if before { "before" } else { "after" }));
        aspect_offsets(c, &w)
    });
}

/// Files of several GiB (with holes): offsets around 2^31 and 2^32.
fn sparse(run: &mut Run) {
    let tags = [(0usize, "longer"), (1, "shorter")];
    run.explore_t("files beyond 4 GiB", 0, 300, |c| {
        let wide = c.all(2) == 1;
        let (tag_no, _) = *c.all_of(&tags);
        let (tag, items) = tag_n(tag_no);
        let old_ilst = ilst_of(&[(Id::fc("\u{a9}nam"), vec![Val::s("middle")])]);
        let diff = ilst_of(&tag_items(tag_no)).len() as i64 - old_ilst.len() as i64;
        // the media after the movie lies so that the address `goal` after the write is just below,
        // at or above the limit
        let limit: u64 = *c.all_of(&[1 << 31, 1 << 32, (1 << 32) + (1 << 31), 1 << 33]);
        let delta: i64 = *c.all_of(&[-1, 0, 1]);
        // which entry is close to the limit, before or after the write
        let after = c.all(2) == 1;
        let order = c.all(2);
        let make = |hole: u64| {
            let targets = vec![Target::Media(0, 0), Target::Media(0, 5), Target::Media(1, 0), Target::Media(1, 63)];
            let body = if wide { Body::Co64(targets) } else { Body::Stco(targets) };
            let table = Node { cc: if wide { *b"co64" } else { *b"stco" }, ext: false, body };
            let udta = kids("udta", vec![meta(vec![hdlr(b"mdir"), old_ilst.clone()])]);
            let tr = trak(vec![table]);
            let moov = if order == 0 { vec![tr, udta] } else { vec![udta, tr] };
            vec![
                leaf("ftyp", b"isom"),
                Node { cc: *b"mdat", ext: true, body: Body::Hole(hole, vec![7; 16], vec![8; 16]) },
                kids("moov", moov),
                mdat(64, 3),
            ]
        };
        // the address of the last byte
        let base = media_positions(&make(1000))[1] as i64 + 63 - 1000;
        let goal = limit as i64 + delta;
        let hole = goal - base - if after { diff } else { 0 };
        let nodes = make(hole as u64);
        let last = media_positions(&nodes)[1] + 63;
        if !wide && last > u32::MAX as u64 {
            c.label("not representable");
            return Ok(());
        }
        let img = encode(&nodes);
        let f = img.to_file();
        let op = parse(&f)?;
        let fits = wide || last as i64 + diff <= u32::MAX as i64;
        let r = write_file("write_to", &tag, &f)?;
        c.step(1);
        c.state(&(wide, tag_no, hole, order));
        c.sample(|| format!("last offset {} changes by {}: {}", last, diff, if r.is_ok() { "written" } else { "refused" }));
        match r {
            Ok(()) => {
                ensure!(fits, "offset {} was written to a 32-bit table", last as i64 + diff);
                c.label("written");
                let np = parse(&f).map_err(|e| format!("written file is malformed: {}", e))?;
                let before = img.to_file();
                offsets_kept(&before, &op, &f, &np)?;
                let ilst = find_ilst(&np).ok_or("no item list in the written file")?;
                same_items("items stored", &stored_items(&f, ilst)?, &items)
            }
            Err(e) => {
                ensure!(!fits, "refused though the offsets fit: {}", e);
                c.label("refused");
                ensure!(sys::len(&f) == img.len, "refused, but the file has {} bytes instead of {}", sys::len(&f), img.len);
                for (p, s) in &img.segs {
                    ensure!(sys::get_at(&f, *p, s.len()) == *s, "refused, but bytes at {} were changed", p);
                }
                Ok(())
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C09

fn c09(run: &mut Run) {
    let b = run.tiered(2, 3);
    run.explore("write histories", b, |c| {
        let l = layout(c, EVERYTHING);
        let old = bytes_of(&l.nodes);
        // read and write back, at the start
        let t0 = must_read("read_from", &old)?;
        let back = written("write_to", &t0, &old)?.map_err(|e| format!("writing back failed: {}", e))?;
        let t1 = must_read("reading the file written back", &back)?;
        check_items("items after writing back", &t1, &items_of(&t0)?)?;
        let mut direct: Vec<Vec<u8>> = vec![back];
        let mut tags: Vec<Tag> = vec![t0];
        for i in 0..N_TAGS {
            let (t, _) = tag_n(i);
            direct.push(written("write_to", &t, &old)?.map_err(|e| format!("write_to failed: {}", e))?);
            tags.push(t);
        }
        c.state(&old);
        for d in &direct {
            c.state(d);
        }
        c.step(tags.len() as u64);
        // every state, every operation
        for (i, d) in direct.iter().enumerate() {
            for (k, t) in tags.iter().enumerate() {
                let n = written("write_to", t, d)?.map_err(|e| format!("write_to after another write failed: {}", e))?;
                c.step(1);
                if n != direct[k] {
                    let p = n.iter().zip(&direct[k]).position(|(a, b)| a != b).unwrap_or(n.len().min(direct[k].len()));
                    return Err(format!(
                        "writing tag {} over tag {} gives {} bytes, writing it directly {}; they differ from byte {} (0: the tag read from the file)",
                        k, i, n.len(), direct[k].len(), p
                    ));
                }
            }
            let t = must_read("read_from", d)?;
            let n = written("write_to", &t, d)?.map_err(|e| format!("writing back failed: {}", e))?;
            c.step(1);
            ensure!(n == *d, "reading tag {} and writing it back changes the file", i);
        }
        c.sample(|| format!("{} files reached from one of {} bytes", direct.len() + 1, old.len()));
        Ok(())
    });
    // files with many of something
    let v = counts(run.tiered(3, 12), run.thorough());
    let v = &v;
    run.explore("many of everything", 0, |c| {
        let l = any_crowd(c, v);
        let old = bytes_of(&l.nodes);
        let w = |t: usize, b: &[u8]| -> Result<Vec<u8>, String> {
            c.step(1);
            written("write_to", &tag_n(t).0, b)?.map_err(|e| format!("write_to failed: {}", e))
        };
        let t0 = must_read("read_from", &old)?;
        let back = written("write_to", &t0, &old)?.map_err(|e| format!("writing back failed: {}", e))?;
        check_items("items after writing back", &must_read("reading the file written back", &back)?, &l.items)?;
        let direct = w(3, &old)?;
        c.state(&direct);
        ensure!(w(3, &direct)? == direct, "writing the same tag again changes the file");
        ensure!(w(3, &back)? == direct, "writing back before leaves a trace");
        for t in [0usize, 1, 7] {
            ensure!(w(3, &w(t, &old)?)? == direct, "writing tag {} before leaves a trace", t);
        }
        Ok(())
    });
    // the same handle is used for all operations, paths of length 3
    run.explore("one handle", 0, |c| {
        let l = layout(c, Vary { media: false, stored: false, audio: false });
        let old = bytes_of(&l.nodes);
        let menu = [0usize, 1, 3, 4, 6];
        let ops: Vec<usize> = (0..3).map(|_| *c.all_of(&menu)).collect();
        let r = with_file(&old, |f| {
            for o in &ops {
                must_write("write_to", &tag_n(*o).0, f)?;
                c.step(1);
            }
            Ok::<_, String>(sys::contents(f))
        })?;
        let want = written("write_to", &tag_n(ops[2]).0, &old)?.map_err(|e| e.to_string())?;
        c.state(&r);
        c.sample(|| format!("tags {:?}", ops));
        ensure!(r == want, "after writing tags {:?} the file differs from one to which only the last was written", ops);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C10

fn c10(run: &mut Run) {
    let (codes, free) = (codes(), free_ids());
    run.explore("identifiers", 0, |c| {
        let l = identified(c, &codes, &free);
        let b = bytes_of(&small_file(ilst_of(&l)));
        c.step(1);
        c.state(&b);
        c.sample(|| show_items(&map_of(&l)));
        check_items("items read", &must_read("read_from", &b)?, &map_of(&l))
    });
    let (marks, ids) = (marks(), known_ids());
    let reads = |c: &Ctx, l: Option<Vec<(Id, Vec<Val>)>>| {
        let Some(l) = l else { return Ok(()) };
        let b = bytes_of(&small_file(ilst_of(&l)));
        c.step(1);
        c.state(&b);
        check_items("items read", &must_read("read_from", &b)?, &map_of(&l))
    };
    run.explore("marked values", 0, |c| reads(c, marked(c, &marks)));
    run.explore("values of known identifiers", 0, |c| reads(c, particular(c, &ids, &marks)));
    run.explore("marked file types", 0, |c| {
        let Ok(text) = String::from_utf8(marked_bytes(c, &marks)) else { return Ok(()) };
        let mut nodes = small_file(ilst_of(&[(Id::fc("\u{a9}cmt"), vec![Val::s("text")])]));
        nodes[0] = leaf("ftyp", text.as_bytes());
        let b = bytes_of(&nodes);
        c.step(1);
        c.state(&b);
        let t = must_read("read_from", &b)?;
        ensure!(t.filetype() == text, "file type is {:?} instead of {:?}", t.filetype(), text);
        Ok(())
    });
    let n = neutral();
    let pairs = run.tiered(30, usize::MAX);
    run.explore("bytes without meaning", 0, |c| {
        n.vary(c, pairs, |b| {
            let t = must_read("read_from", b)?;
            ensure!(t.filetype() == n.layout.ftyp, "file type is {:?} instead of {:?}", t.filetype(), n.layout.ftyp);
            check_items("items read", &t, &n.layout.items)
        })
    });
    run.explore("misplaced atoms", 0, |c| {
        let (l, what) = misplaced(c);
        let b = bytes_of(&l.nodes);
        c.step(1);
        c.state(&b);
        c.sample(|| what.clone());
        let t = must_read("read_from", &b)?;
        ensure!(t.filetype() == l.ftyp, "file type is {:?} instead of {:?}", t.filetype(), l.ftyp);
        check_items("items read", &t, &l.items)
    });
    run.explore("characters", 0, |c| {
        let l = any_sweep(c);
        let b = bytes_of(&small_file(ilst_of(&l)));
        c.step(1);
        c.state(&b);
        check_items("items read", &must_read("read_from", &b)?, &map_of(&l))?;
        Ok(())
    });
    // every character at every place of the file type, and short ones over what is easily lost
    let special = ['\0', ' ', '\t', '\n', '\r', 'a', '\u{85}', '\u{a0}', '\u{3000}', '\u{feff}', '\u{1F600}'];
    let up_to = run.tiered(0x3000, 0x110000);
    let n = run.tiered(4, 5);
    run.explore("file types", 0, |c| {
        let text: String = if c.all(2) == 0 {
            let Some(x) = char::from_u32(c.all(up_to) as u32) else { return Ok(()) };
            match c.all(4) {
                0 => x.to_string(),
                1 => format!("{}M4A ", x),
                2 => format!("M4{}A", x),
                _ => format!("M4A {}", x),
            }
        } else {
            (0..c.all(n + 1)).map(|_| *c.all_of(&special)).collect()
        };
        let ext = c.all(2) == 1;
        let mut nodes = small_file(ilst_of(&tag_items(0)));
        nodes[0] = leaf("ftyp", text.as_bytes()).ext(ext);
        let b = bytes_of(&nodes);
        c.step(1);
        c.state(&b);
        c.sample(|| format!("file type {:?}", text));
        let t = must_read("read_from", &b)?;
        ensure!(t.filetype() == text, "file type is {:?} instead of {:?}", t.filetype(), text);
        Ok(())
    });
    let mut around: Vec<usize> = Vec::new();
    let reach = run.tiered(24, 80);
    for base in [1024usize, 4096, 8192, 16384, 32768, 65536, 131072] {
        around.extend(base - reach..=base + reach);
    }
    let around = &around;
    run.explore("sizes around buffers", 0, |c| {
        let n = *c.all_of(around);
        let part = c.all(8);
        let nam = Id::fc("\u{a9}nam");
        let mut l = vec![(nam.clone(), vec![Val::s("t")]), (Id::free("m", "n"), vec![Val::s("f")])];
        match part {
            0 => l[0].1 = vec![Val::new(Kind::Bmp, &vec![0x5A; n])],
            1 => l[0].1.insert(0, Val::s(&"\u{20ac}".repeat(n / 3))),
            2 => l[0].1.insert(0, Val::s16(&"\u{1F600}".repeat(n / 4))),
            3 => l[0].1.insert(0, Val::new(Kind::Reserved, &vec![7; n])),
            4 => l.insert(0, (Id::free("mean", &"n".repeat(n)), vec![Val::s("v")])),
            5 => l.insert(0, (Id::free(&"m".repeat(n), "name"), vec![Val::s("v")])),
            _ => {}
        }
        let mut nodes = small_file(ilst_of(&l));
        match part {
            6 => nodes.insert(1, filler(n - 8)),
            7 => nodes[0] = leaf("ftyp", "M4A ".repeat(n / 4).as_bytes()),
            _ => {}
        }
        let b = bytes_of(&nodes);
        c.step(1);
        c.state(&b);
        let t = must_read("read_from", &b)?;
        ensure!(part != 7 || t.filetype() == "M4A ".repeat(n / 4), "file type of {} bytes instead of {}", t.filetype().len(), n / 4 * 4);
        check_items("items read", &t, &map_of(&l))
    });
    run.explore("files of any length", 0, |c| {
        let (l, what) = vast(c, VAST_PLACES);
        let t = read_long("read_from", &encode(&l.nodes).to_file())?;
        c.step(1);
        c.state(&what);
        c.sample(|| what.clone());
        ensure!(t.filetype() == l.ftyp, "file type is {:?} instead of {:?}", t.filetype(), l.ftyp);
        check_items("items read", &t, &l.items)
    });
    let b = run.tiered(4, 4);
    run.explore("layouts", b, |c| {
        let l = layout(c, EVERYTHING);
        let b = bytes_of(&l.nodes);
        let t = must_read("read_from", &b)?;
        c.step(1);
        c.state(&b);
        c.sample(|| format!("{} bytes: {}", b.len(), show_items(&l.items)));
        ensure!(t.filetype() == l.ftyp, "file type is {:?} instead of {:?}", t.filetype(), l.ftyp);
        check_items("items read", &t, &l.items)
    });
    let v = counts(run.tiered(40, 150), run.thorough());
    let v = &v;
    run.explore("many of everything", 0, |c| {
        let l = any_crowd(c, v);
        let b = bytes_of(&l.nodes);
        let t = must_read("read_from", &b)?;
        c.step(1);
        c.state(&b);
        ensure!(t.filetype() == l.ftyp, "file type is {:?} instead of {:?}", t.filetype(), l.ftyp);
        check_items("items read", &t, &l.items)
    });
    run.explore_t("more than 65536", 0, 200, |c| {
        let which = c.all(CROWDS);
        let n = 65_537;
        let l = crowd(which, n, true);
        let b = bytes_of(&l.nodes);
        let t = must_read("read_from", &b)?;
        c.step(1);
        c.state(&b);
        c.sample(|| format!("crowd {} of {}: {} bytes", which, n, b.len()));
        check_items("items read", &t, &l.items)
    });
    // item lists of up to n atoms out of an alphabet
    let n = run.tiered(3, 4);
    let nam = Id::fc("\u{a9}nam");
    let art = Id::fc("aART");
    let f1 = Id::free("m", "n");
    let f2 = Id::free("n", "m");
    let mut menu: Vec<(Option<Id>, Vec<Val>, Node)> = Vec::new();
    for (id, v) in [
        (nam.clone(), vec![Val::s("a")]),
        (nam.clone(), vec![Val::s("b"), Val::new(Kind::Png, &[0])]),
        (art.clone(), vec![Val::s("")]),
        (art, vec![Val::new(Kind::Reserved, &[])]),
        (f1.clone(), vec![Val::s("f")]),
        (f1, vec![Val::new(Kind::BeSigned, &[1]), Val::s16("g")]),
        (f2, vec![Val::s("f")]),
    ] {
        let node = item(&id, &v);
        menu.push((Some(id), v, node));
    }
    menu.push((None, vec![], filler(0)));
    menu.push((None, vec![], filler(9)));
    menu.push((None, vec![], kids("free", vec![item(&nam, &[Val::s("hidden")])])));
    let mut padded = item(&nam, &[Val::s("p")]);
    padded.kids_mut().insert(0, filler(1));
    padded.kids_mut().push(leaf("Data", &[0; 9]));
    menu.push((Some(nam.clone()), vec![Val::s("p")], padded.ext(true)));
    let menu = &menu;
    run.explore("item lists", 0, |c| {
        let count = c.all(n + 1);
        let mut k = Vec::new();
        let mut want = Items::new();
        for _ in 0..count {
            let (id, v, node) = c.all_of(menu);
            k.push(node.clone());
            if let Some(id) = id {
                want.entry(id.clone()).or_default().extend(v.iter().cloned());
            }
        }
        let b = bytes_of(&small_file(kids("ilst", k)));
        let t = must_read("read_from", &b)?;
        c.step(1);
        c.state(&b);
        c.sample(|| show_items(&want));
        check_items("items read", &t, &want)
    });
}
