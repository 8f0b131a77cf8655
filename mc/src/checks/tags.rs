//! C11, C13, C14: operation histories of tags against reference models.

use mp4ameta::{Data, Fourcc, FreeformIdent, Img, ImgFmt};

use super::*;
use crate::mp4::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            level: "model_checking",
            technique: "explicit-state search over the reachable states of a tag under all container operations, in lockstep with a map model",
            note: "All states reachable with value lists of bounded length over several identifiers and values of every kind; in each state every operation (each identifier kind, value kind, predicate) is executed on the real tag and on a map model, results and all views are compared.",
            rule: "states are distinct tag contents (including the order of identifiers), transitions operations executed on the real tag and compared with the model",
            assumptions: &["value lists are bounded in length; values and identifiers come from a small menu"],
            run: c11,
        },
        Check {
            id: "C13",
            level: "model_checking",
            technique: "explicit-state closure of the pair operations from all kinds of stored representations, in lockstep with a model of four optional numbers",
            note: "The search closes: all states reachable by any sequence of the setters and removers over the value menu from every initial representation are visited.",
            rule: "states are distinct tag contents, transitions operations executed on the real tag and compared with the model",
            assumptions: &["numbers come from a menu of boundary values"],
            run: c13,
        },
        Check {
            id: "C14",
            level: "model_checking",
            technique: "explicit-state search over genre operations from all kinds of stored representations, in lockstep with a model; all 65536 codes",
            note: "All states with bounded numbers of genres reachable by any sequence of genre operations, and every 16-bit code alone and between others.",
            rule: "states are distinct tag contents, transitions operations executed on the real tag and compared with the model",
            assumptions: &["lists of genres are bounded in length"],
            run: c14,
        },
    ]
}

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sort {
    Data,
    Bytes,
    Strings,
    Images,
}

const SORTS: [Sort; 4] = [Sort::Data, Sort::Bytes, Sort::Strings, Sort::Images];

impl Sort {
    fn has(self, k: Kind) -> bool {
        match self {
            Sort::Data => true,
            Sort::Bytes => k.is_bytes(),
            Sort::Strings => k.is_text(),
            Sort::Images => k.is_image(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pred {
    Nothing,
    Everything,
    Odd,
    FirstIdent,
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize, usize),
    SetAll(usize, Vec<usize>),
    Add(usize, usize),
    AddAll(usize, Vec<usize>),
    RemoveOf(usize, Sort),
    TakeOf(usize, Sort, bool),
    RetainOf(usize, Sort, Pred),
    Retain(Sort, Pred),
    Clear,
    ChangeOf(usize, Sort),
    Change(Sort),
}

#[derive(Clone)]
struct State {
    tag: Tag,
    model: Items,
}

struct World {
    ids: Vec<Id>,
    vals: Vec<Val>,
    max: usize,
    ops: Vec<(Op, usize)>,
}

macro_rules! with_ident {
    ($id:expr, $how:expr, |$i:ident| $e:expr) => {
        match ($id, $how) {
            (Id::Fc(f), 0) => {
                let $i = Fourcc(*f);
                $e
            }
            (Id::Free(m, n), 0) => {
                let $i = FreeformIdent::new(m, n);
                $e
            }
            (id, _) => {
                let $i = id.to_ident();
                $e
            }
        }
    };
}

fn odd(b: &[u8]) -> bool {
    b.first().map_or(false, |b| b % 2 == 1)
}

fn img_val(fmt: &ImgFmt, b: &[u8]) -> Val {
    let k = match fmt {
        ImgFmt::Bmp => Kind::Bmp,
        ImgFmt::Jpeg => Kind::Jpeg,
        ImgFmt::Png => Kind::Png,
    };
    Val::new(k, b)
}

/// Another value of the same kind: the first byte toggles between odd and even.
fn toggled(v: &Val) -> Val {
    let mut v = v.clone();
    match v.bytes.first_mut() {
        Some(b) => *b ^= 3,
        None => v.bytes.push(b'a'),
    }
    if v.bytes == b"b" && v.kind == Kind::BeSigned {
        v.bytes.clear();
    }
    v
}

impl World {
    fn new(ids: Vec<Id>, vals: Vec<Val>, max: usize, lists: &[Vec<usize>], sorts: &[Sort], preds: &[Pred]) -> Self {
        let mut ops = Vec::new();
        for i in 0..ids.len() {
            for v in 0..vals.len() {
                ops.push(Op::Set(i, v));
                ops.push(Op::Add(i, v));
            }
            for l in lists {
                ops.push(Op::SetAll(i, l.clone()));
                ops.push(Op::AddAll(i, l.clone()));
            }
            for s in sorts {
                ops.push(Op::RemoveOf(i, *s));
                ops.push(Op::TakeOf(i, *s, true));
                ops.push(Op::TakeOf(i, *s, false));
                ops.push(Op::ChangeOf(i, *s));
                for p in preds {
                    if *p != Pred::FirstIdent {
                        ops.push(Op::RetainOf(i, *s, *p));
                    }
                }
            }
        }
        for s in sorts {
            ops.push(Op::Change(*s));
            for p in preds {
                ops.push(Op::Retain(*s, *p));
            }
        }
        ops.push(Op::Clear);
        let ops = ops.into_iter().flat_map(|o| [(o.clone(), 0), (o, 1)]).collect();
        World { ids, vals, max, ops }
    }

    fn apply(&self, s: &State, op: usize) -> Result<Option<State>, String> {
        let (op, how) = &self.ops[op];
        let how = *how;
        let mut tag = s.tag.clone();
        let mut m = s.model.clone();
        let val = |v: &usize| self.vals[*v].clone();
        let data = |v: &usize| self.vals[*v].to_data();
        match op {
            Op::Set(i, v) => {
                with_ident!(&self.ids[*i], how, |id| tag.set_data(id, data(v)));
                m.insert(self.ids[*i].clone(), vec![val(v)]);
            }
            Op::SetAll(i, l) => {
                // iterators of known and of unknown length
                with_ident!(&self.ids[*i], how, |id| match how {
                    0 => tag.set_all_data(id, l.iter().map(data)),
                    _ => tag.set_all_data(id, l.iter().map(data).filter(|_| true)),
                });
                if l.is_empty() {
                    m.remove(&self.ids[*i]);
                } else {
                    m.insert(self.ids[*i].clone(), l.iter().map(val).collect());
                }
            }
            Op::Add(i, v) => {
                with_ident!(&self.ids[*i], how, |id| tag.add_data(id, data(v)));
                m.entry(self.ids[*i].clone()).or_default().push(val(v));
            }
            Op::AddAll(i, l) => {
                with_ident!(&self.ids[*i], how, |id| match how {
                    0 => tag.add_all_data(id, l.iter().map(data).collect::<Vec<_>>()),
                    _ => tag.add_all_data(id, l.iter().map(data).filter(|_| true)),
                });
                if !l.is_empty() {
                    m.entry(self.ids[*i].clone()).or_default().extend(l.iter().map(val));
                }
            }
            Op::RemoveOf(i, sort) => {
                with_ident!(&self.ids[*i], how, |id| match sort {
                    Sort::Data => tag.remove_data_of(&id),
                    Sort::Bytes => tag.remove_bytes_of(&id),
                    Sort::Strings => tag.remove_strings_of(&id),
                    Sort::Images => tag.remove_images_of(&id),
                });
                retain(&mut m, |i2, v| i2 != &self.ids[*i] || !sort.has(v.kind));
            }
            Op::TakeOf(i, sort, consume) => {
                // documented: removes everything of the identifier, returns the values of the kind
                let got: Vec<Val> = with_ident!(&self.ids[*i], how, |id| {
                    let n = if *consume { usize::MAX } else { 0 };
                    match sort {
                        Sort::Data => tag.take_data_of(&id).take(n).map(|d| Val::of(&d)).collect(),
                        Sort::Bytes => tag.take_bytes_of(&id).take(n).map(|b| Val::new(Kind::Reserved, &b)).collect(),
                        Sort::Strings => tag.take_strings_of(&id).take(n).map(|b| Val::s(&b)).collect(),
                        Sort::Images => tag.take_images_of(&id).take(n).map(|b| img_val(&b.fmt, &b.data)).collect(),
                    }
                });
                let had = m.remove(&self.ids[*i]).unwrap_or_default();
                let mut want: Vec<Val> = had.into_iter().filter(|v| sort.has(v.kind)).collect();
                if !consume {
                    want.clear();
                }
                for v in &mut want {
                    match sort {
                        Sort::Bytes => v.kind = Kind::Reserved,
                        Sort::Strings => v.kind = Kind::Utf8,
                        _ => (),
                    }
                }
                ensure!(got == want, "{:?} returns {:?} instead of {:?}", op, got, want);
            }
            Op::RetainOf(i, sort, p) => {
                let f = |b: &[u8]| match p {
                    Pred::Nothing => false,
                    Pred::Everything => true,
                    _ => odd(b),
                };
                with_ident!(&self.ids[*i], how, |id| match sort {
                    Sort::Data => tag.retain_data_of(&id, |d| f(&Val::of(d).bytes)),
                    Sort::Bytes => tag.retain_bytes_of(&id, |b| f(b)),
                    Sort::Strings => tag.retain_strings_of(&id, |b| f(b.as_bytes())),
                    Sort::Images => tag.retain_images_of(&id, |b| f(b.data)),
                });
                retain(&mut m, |i2, v| i2 != &self.ids[*i] || !sort.has(v.kind) || f(&v.bytes));
            }
            Op::Retain(sort, p) => {
                if how == 1 {
                    return Ok(None);
                }
                let first = self.ids[0].to_ident();
                let f = |i: &mp4ameta::DataIdent, b: &[u8]| match p {
                    Pred::Nothing => false,
                    Pred::Everything => true,
                    Pred::Odd => odd(b),
                    Pred::FirstIdent => *i == first,
                };
                match sort {
                    Sort::Data => tag.retain_data(|i, d| f(i, &Val::of(d).bytes)),
                    Sort::Bytes => tag.retain_bytes(f),
                    Sort::Strings => tag.retain_strings(|i, b| f(i, b.as_bytes())),
                    Sort::Images => tag.retain_images(|i, b| f(i, b.data)),
                }
                retain(&mut m, |i, v| !sort.has(v.kind) || f(&i.to_ident(), &v.bytes));
            }
            Op::Clear => {
                if how == 1 {
                    return Ok(None);
                }
                tag.clear();
                m.clear();
            }
            Op::ChangeOf(i, sort) => {
                with_ident!(&self.ids[*i], how, |id| match sort {
                    Sort::Data => tag.data_mut_of(&id).for_each(|d| *d = toggled(&Val::of(d)).to_data()),
                    Sort::Bytes => tag.bytes_mut_of(&id).for_each(|d| change_bytes(d)),
                    Sort::Strings => tag.strings_mut_of(&id).for_each(|d| change_string(d)),
                    Sort::Images => tag.images_mut_of(&id).for_each(|d| change_bytes(d.data)),
                });
                if let Some(l) = m.get_mut(&self.ids[*i]) {
                    change_model(l, *sort);
                }
            }
            Op::Change(sort) => {
                if how == 1 {
                    return Ok(None);
                }
                match sort {
                    Sort::Data => tag.data_mut().for_each(|(_, d)| *d = toggled(&Val::of(d)).to_data()),
                    Sort::Bytes => tag.bytes_mut().for_each(|(_, d)| change_bytes(d)),
                    Sort::Strings => tag.strings_mut().for_each(|(_, d)| change_string(d)),
                    Sort::Images => tag.images_mut().for_each(|(_, d)| change_bytes(d.data)),
                }
                for l in m.values_mut() {
                    change_model(l, *sort);
                }
            }
        }
        if m.values().any(|l| l.len() > self.max) {
            return Ok(None);
        }
        self.views(&mut tag, &m).map_err(|e| format!("after {:?}: {}", op, e))?;
        ensure!(tag.filetype() == s.tag.filetype(), "after {:?}: the file type is {:?} instead of {:?}", op, tag.filetype(), s.tag.filetype());
        ensure!(tag.audio_info() == s.tag.audio_info(), "after {:?}: the audio information is {:?} instead of {:?}", op, tag.audio_info(), s.tag.audio_info());
        ensure!(tag == tag.clone(), "after {:?}: the tag isn't equal to its copy", op);
        if m != s.model {
            ensure!(tag != s.tag, "after {:?}: the tag is equal to the one before, which was [{}] instead of [{}]", op, show_items(&s.model), show_items(&m));
        }
        Ok(Some(State { tag, model: m }))
    }

    /// All views of a tag agree with the model.
    fn views(&self, tag: &mut Tag, m: &Items) -> Verdict {
        let got = items_of(tag)?;
        same_items("content", &got, m)?;
        ensure!(tag.is_empty() == m.is_empty(), "is_empty is {} for [{}]", tag.is_empty(), show_items(m));
        let all: Vec<(Id, Val)> = tag.data().map(|(i, d)| (Id::of(i), Val::of(d))).collect();
        // the other kinds are the same sequence, filtered
        let bytes: Vec<(Id, Val)> = tag.bytes().map(|(i, d)| (Id::of(i), Val::new(Kind::Reserved, d))).collect();
        let strings: Vec<(Id, Val)> = tag.strings().map(|(i, d)| (Id::of(i), Val::s(d))).collect();
        let images: Vec<(Id, Val)> = tag.images().map(|(i, d)| (Id::of(i), img_val(&d.fmt, d.data))).collect();
        let of = |s: Sort, l: &[(Id, Val)]| -> Vec<(Id, Val)> { l.iter().filter(|(_, v)| s.has(v.kind)).map(|(i, v)| (i.clone(), blur(s, v))).collect() };
        ensure!(bytes == of(Sort::Bytes, &all), "bytes lists {:?}", bytes);
        ensure!(strings == of(Sort::Strings, &all), "strings lists {:?}", strings);
        ensure!(images == of(Sort::Images, &all), "images lists {:?}", images);
        // mutable views
        let x: Vec<(Id, Val)> = tag.data_mut().map(|(i, d)| (Id::of(i), Val::of(d))).collect();
        ensure!(x == all, "data_mut lists {:?}", x);
        let x: Vec<(Id, Val)> = tag.bytes_mut().map(|(i, d)| (Id::of(i), Val::new(Kind::Reserved, d))).collect();
        ensure!(x == bytes, "bytes_mut lists {:?}", x);
        let x: Vec<(Id, Val)> = tag.strings_mut().map(|(i, d)| (Id::of(i), Val::s(d))).collect();
        ensure!(x == strings, "strings_mut lists {:?}", x);
        let x: Vec<(Id, Val)> = tag.images_mut().map(|(i, d)| (Id::of(i), img_val(&d.fmt, d.data))).collect();
        ensure!(x == images, "images_mut lists {:?}", x);
        // consuming views
        let x: Vec<(Id, Val)> = tag.clone().take_data().map(|(i, d)| (Id::of(&i), Val::of(&d))).collect();
        ensure!(x == all, "take_data lists {:?}", x);
        let x: Vec<(Id, Val)> = tag.clone().take_bytes().map(|(i, d)| (Id::of(&i), Val::new(Kind::Reserved, &d))).collect();
        ensure!(x == bytes, "take_bytes lists {:?}", x);
        let x: Vec<(Id, Val)> = tag.clone().take_strings().map(|(i, d)| (Id::of(&i), Val::s(&d))).collect();
        ensure!(x == strings, "take_strings lists {:?}", x);
        let x: Vec<(Id, Val)> = tag.clone().take_images().map(|(i, d)| (Id::of(&i), img_val(&d.fmt, &d.data))).collect();
        ensure!(x == images, "take_images lists {:?}", x);
        // per identifier
        for id in &self.ids {
            let none = Vec::new();
            let l = m.get(id).unwrap_or(&none);
            let want = |s: Sort| -> Vec<Val> { l.iter().filter(|v| s.has(v.kind)).map(|v| blur(s, v)).collect() };
            for how in 0..2 {
                with_ident!(id, how, |i| {
                    let x: Vec<Val> = tag.data_of(&i).map(Val::of).collect();
                    ensure!(x == *l, "data_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.bytes_of(&i).map(|b| Val::new(Kind::Reserved, b)).collect();
                    ensure!(x == want(Sort::Bytes), "bytes_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.strings_of(&i).map(Val::s).collect();
                    ensure!(x == want(Sort::Strings), "strings_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.images_of(&i).map(|b| img_val(&b.fmt, b.data)).collect();
                    ensure!(x == want(Sort::Images), "images_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.data_mut_of(&i).map(|d| Val::of(d)).collect();
                    ensure!(x == *l, "data_mut_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.bytes_mut_of(&i).map(|b| Val::new(Kind::Reserved, b)).collect();
                    ensure!(x == want(Sort::Bytes), "bytes_mut_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.strings_mut_of(&i).map(|b| Val::s(b)).collect();
                    ensure!(x == want(Sort::Strings), "strings_mut_of {:?} lists {:?}", id, x);
                    let x: Vec<Val> = tag.images_mut_of(&i).map(|b| img_val(&b.fmt, b.data)).collect();
                    ensure!(x == want(Sort::Images), "images_mut_of {:?} lists {:?}", id, x);
                });
            }
        }
        Ok(())
    }

    fn show(&self, op: usize) -> String {
        format!("{:?}", self.ops[op].0)
    }
}

fn blur(s: Sort, v: &Val) -> Val {
    let mut v = v.clone();
    match s {
        Sort::Bytes => v.kind = Kind::Reserved,
        Sort::Strings => v.kind = Kind::Utf8,
        _ => (),
    }
    v
}

fn change_bytes(b: &mut Vec<u8>) {
    *b = toggled(&Val::new(Kind::Reserved, b)).bytes;
}

fn change_string(s: &mut String) {
    *s = String::from_utf8(toggled(&Val::s(s)).bytes).unwrap();
}

fn change_model(l: &mut [Val], sort: Sort) {
    for v in l.iter_mut().filter(|v| sort.has(v.kind)) {
        *v = match sort {
            Sort::Data => toggled(v),
            _ => Val::new(v.kind, &toggled(&Val::new(Kind::Reserved, &v.bytes)).bytes),
        };
    }
}

fn retain(m: &mut Items, f: impl Fn(&Id, &Val) -> bool) {
    for (i, l) in m.iter_mut() {
        l.retain(|v| f(i, v));
    }
    m.retain(|_, l| !l.is_empty());
}

fn key(tag: &Tag) -> u64 {
    let l: Vec<(Id, Val)> = tag.data().map(|(i, d)| (Id::of(i), Val::of(d))).collect();
    hash(&l)
}

fn c11(run: &mut Run) {
    let info = mp4ameta::AudioInfo { duration: Some(std::time::Duration::from_millis(61_500)), max_bitrate: Some(9), ..Default::default() };
    let initial = || vec![State { tag: Tag::new("M4A isom".to_owned(), info.clone(), Vec::new()), model: Items::new() }];
    let all_preds = [Pred::Nothing, Pred::Everything, Pred::Odd, Pred::FirstIdent];

    // every kind of value, two identifiers
    let mut vals = vec![
        Val::s("a"),
        Val::s16("a"),
        Val::new(Kind::Reserved, &[1]),
        Val::new(Kind::Png, &[1]),
        Val::new(Kind::BeSigned, &[2]),
    ];
    if run.thorough() {
        vals.extend([Val::new(Kind::Jpeg, &[2]), Val::new(Kind::Bmp, &[1]), Val::s("")]);
    }
    let lists = vec![vec![], vec![0], vec![2, 0], vec![3, 1]];
    let w = World::new(vec![Id::fc("\u{a9}nam"), Id::free("m", "n")], vals, 2, &lists, &SORTS, &all_preds);
    let depth = run.tiered(40, 60);
    run.bfs("all kinds", initial(), w.ops.len(), depth, |s, o| w.apply(s, o), |s| key(&s.tag), |o| w.show(o));

    // identifiers that nearly collide
    let ids = vec![Id::fc("----"), Id::free("m", "n"), Id::free("n", "m"), Id::fc("\u{a9}nam"), Id::free("m", "N")];
    let vals = vec![Val::s("a"), Val::new(Kind::Reserved, &[2])];
    let n = run.tiered(4, 5);
    let w = World::new(ids[..n].to_vec(), vals, run.tiered(1, 1), &[vec![], vec![1]], &[Sort::Data, Sort::Strings], &all_preds);
    run.bfs("near collisions", initial(), w.ops.len(), 40, |s, o| w.apply(s, o), |s| key(&s.tag), |o| w.show(o));

    // one identifier, every kind of value
    let vals: Vec<Val> = KINDS.iter().map(|k| Val::new(*k, b"a")).chain([Val::s(""), Val::new(Kind::Bmp, &[])]).collect();
    let w = World::new(vec![Id::fc("trkn")], vals, run.tiered(2, 3), &[vec![], vec![3, 1]], &SORTS, &all_preds);
    run.bfs("one identifier", initial(), w.ops.len(), depth, |s, o| w.apply(s, o), |s| key(&s.tag), |o| w.show(o));

    // longer lists
    let mut vals = vec![Val::s("a"), Val::new(Kind::Png, &[1])];
    if run.thorough() {
        vals.push(Val::new(Kind::Reserved, &[2]));
    }
    let w = World::new(
        vec![Id::fc("covr"), Id::free("", "x")],
        vals,
        3,
        &[vec![], vec![0, 1], vec![1, 1, 0], vec![0, 0]],
        &SORTS,
        &all_preds,
    );
    run.bfs("longer lists", initial(), w.ops.len(), 40, |s, o| w.apply(s, o), |s| key(&s.tag), |o| w.show(o));

    // among many others
    let ids = vec![Id::fc("\u{a9}nam"), Id::free("m", "n"), Id::fc("covr"), Id::free("n", "m")];
    let w = World::new(
        ids.clone(),
        vec![Val::s("a"), Val::new(Kind::Png, &[1])],
        3,
        &[vec![], vec![1, 0]],
        &SORTS,
        &all_preds,
    );
    let ns = run.tiered(vec![1usize, 7, 8, 15, 16, 31, 32, 33, 64], (1..=70).chain([127, 128, 129, 255, 256, 257]).collect());
    let deep = run.thorough();
    let (w, ns, ids) = (&w, &ns, &ids);
    let info = &info;
    run.explore("many identifiers", 0, |c| {
        let n = *c.all_of(ns);
        // where those of the operations are
        let place = c.all(4);
        let mut l: Vec<(Id, Vec<Val>)> = Vec::new();
        for i in 0..n {
            let id = match i % 3 {
                0 => Id::Fc([b'b', b'0', (i >> 8) as u8, i as u8]),
                1 => Id::free("m", &format!("n{}", i)),
                _ => Id::free(&format!("m{}", i), "n"),
            };
            let v = Val::new(KINDS[i % KINDS.len()], b"a");
            l.push((id, if i % 2 == 0 { vec![v] } else { vec![v.clone(), Val::s("b"), v] }));
        }
        for (k, id) in ids[..3].iter().enumerate() {
            let at = [0, l.len() / 2, l.len(), l.len() * k / 2][place];
            l.insert(at, (id.clone(), vec![Val::s("x"), Val::new(Kind::Png, &[2])]));
        }
        let mut t = Tag::new("M4A isom".to_owned(), info.clone(), Vec::new());
        for (id, v) in &l {
            for v in v {
                t.add_data(id.to_ident(), v.to_data());
            }
        }
        let mut s = State { tag: t, model: map_of(&l) };
        for _ in 0..if deep && n <= 8 { 2 } else { 1 } {
            let op = c.all(w.ops.len());
            c.step(1);
            match w.apply(&s, op)? {
                Some(n) => s = n,
                None => return Ok(()),
            }
        }
        Ok(())
    });

    // every list of values up to a length, and patterned longer ones, under every operation
    let four = [Val::s("a"), Val::s16("b"), Val::new(Kind::Png, &[1]), Val::new(Kind::Reserved, &[2])];
    let (len4, len2) = run.tiered((5, 9), (7, 12));
    let long: Vec<usize> = run.tiered(vec![16, 17, 64, 65], (10..=70).chain([127, 128, 129, 255, 256, 257, 1000]).collect());
    let w = World::new(vec![ids[0].clone(), ids[1].clone()], vec![four[0].clone(), four[3].clone()], usize::MAX, &[vec![], vec![1, 0]], &SORTS, &all_preds);
    let (w, four, long) = (&w, &four, &long);
    run.explore("lists of values", 0, |c| {
        let vals: Vec<Val> = match c.all(3) {
            0 => (0..c.all(len4 + 1)).map(|_| c.all_of(four).clone()).collect(),
            1 => {
                let (x, y) = *c.all_of(&[(0, 2), (1, 3), (0, 3), (2, 3)]);
                (0..len4 + 1 + c.all(len2 - len4)).map(|_| four[[x, y][c.all(2)]].clone()).collect()
            }
            _ => {
                let n = *c.all_of(long);
                let (a, b) = *c.all_of(&[(1usize, 1usize), (1, 0), (2, 1), (3, 1), (5, 3), (7, 2)]);
                (0..n).map(|i| four[(i / a + i * b) % 4].clone()).collect()
            }
        };
        let first = c.all(2) == 0;
        let mut t = Tag::new("M4A isom".to_owned(), info.clone(), Vec::new());
        let mut m = Items::new();
        let other = four.to_vec();
        let mut parts = vec![(&w.ids[0], &vals), (&w.ids[1], &other)];
        if first {
            parts.reverse();
        }
        for (i, l) in parts {
            for v in l {
                t.add_data(i.to_ident(), v.to_data());
                m.entry(i.clone()).or_default().push(v.clone());
            }
        }
        let s = State { tag: t, model: m };
        for op in 0..w.ops.len() {
            c.step(1);
            w.apply(&s, op)?;
        }
        c.state(&s.model);
        Ok(())
    });

    // starting from what was read from a file
    let stored: Vec<(Id, Vec<Val>)> = vec![
        (Id::fc("\u{a9}nam"), vec![Val::s("a"), Val::new(Kind::Png, &[1])]),
        (Id::free("m", "n"), vec![Val::new(Kind::Reserved, &[1])]),
        (Id::fc("\u{a9}nam"), vec![Val::s("b")]),
    ];
    let b = bytes_of(&small_file(ilst_of(&stored)));
    if let Ok(t) = must_read("read_from", &b) {
        let w = World::new(
            vec![Id::fc("\u{a9}nam"), Id::free("m", "n")],
            vec![Val::s("a"), Val::new(Kind::Reserved, &[1]), Val::new(Kind::Png, &[2])],
            3,
            &[vec![], vec![0]],
            &SORTS,
            &all_preds,
        );
        let start = vec![State { tag: t, model: map_of(&stored) }];
        let d = run.tiered(5, 6);
        run.bfs("from a file", start, w.ops.len(), d, |s, o| w.apply(s, o), |s| key(&s.tag), |o| w.show(o));
    }
}

// ---------------------------------------------------------------------------------------------
// C13

#[derive(Clone, Copy, Debug)]
enum PairOp {
    SetBoth(usize, u16, u16),
    SetNumber(usize, u16),
    SetTotal(usize, u16),
    Remove(usize),
    RemoveNumber(usize),
    RemoveTotal(usize),
}

#[derive(Clone)]
struct Pairs {
    tag: Tag,
    /// number and total, of track and disc
    model: [[u16; 2]; 2],
}

const PAIR_IDS: [&str; 2] = ["trkn", "disk"];

fn pair_of(v: &[Val]) -> [u16; 2] {
    match v.iter().find(|v| v.kind.is_bytes()) {
        Some(v) => [2, 4].map(|p| if v.bytes.len() >= p + 2 { (v.bytes[p] as u16) << 8 | v.bytes[p + 1] as u16 } else { 0 }),
        None => [0, 0],
    }
}

fn opt(n: u16) -> Option<u16> {
    if n == 0 {
        None
    } else {
        Some(n)
    }
}

fn pair_apply(s: &Pairs, op: PairOp) -> Result<Option<Pairs>, String> {
    let mut t = s.tag.clone();
    let mut m = s.model;
    let mut removed = false;
    let which = match op {
        PairOp::SetBoth(w, a, b) => {
            if w == 0 {
                t.set_track(a, b)
            } else {
                t.set_disc(a, b)
            }
            m[w] = [a, b];
            w
        }
        PairOp::SetNumber(w, a) => {
            if w == 0 {
                t.set_track_number(a)
            } else {
                t.set_disc_number(a)
            }
            m[w][0] = a;
            w
        }
        PairOp::SetTotal(w, a) => {
            if w == 0 {
                t.set_total_tracks(a)
            } else {
                t.set_total_discs(a)
            }
            m[w][1] = a;
            w
        }
        PairOp::Remove(w) => {
            if w == 0 {
                t.remove_track()
            } else {
                t.remove_disc()
            }
            m[w] = [0, 0];
            removed = true;
            w
        }
        PairOp::RemoveNumber(w) => {
            if w == 0 {
                t.remove_track_number()
            } else {
                t.remove_disc_number()
            }
            m[w][0] = 0;
            removed = true;
            w
        }
        PairOp::RemoveTotal(w) => {
            if w == 0 {
                t.remove_total_tracks()
            } else {
                t.remove_total_discs()
            }
            m[w][1] = 0;
            removed = true;
            w
        }
    };
    pair_views(&t, &m).map_err(|e| format!("after {:?}: {}", op, e))?;
    let before = items_of(&s.tag)?;
    let after = items_of(&t)?;
    // nothing else changes
    for (id, v) in &before {
        if *id != Id::fc(PAIR_IDS[which]) {
            ensure!(after.get(id) == Some(v), "{:?} changes {:?}", op, id);
        }
    }
    for id in after.keys() {
        ensure!(before.contains_key(id) || *id == Id::fc(PAIR_IDS[which]), "{:?} creates {:?}", op, id);
    }
    if removed && m[which] == [0, 0] {
        ensure!(!after.contains_key(&Id::fc(PAIR_IDS[which])), "both halves have been removed, but {:?} leaves {}", op, show_items(&after));
    }
    Ok(Some(Pairs { tag: t, model: m }))
}

fn pair_views(t: &Tag, m: &[[u16; 2]; 2]) -> Verdict {
    let got = [t.track(), t.disc()];
    let single = [(t.track_number(), t.total_tracks()), (t.disc_number(), t.total_discs())];
    for w in 0..2 {
        let want = (opt(m[w][0]), opt(m[w][1]));
        ensure!(got[w] == want, "{} is {:?} instead of {:?}", ["track", "disc"][w], got[w], want);
        ensure!(single[w] == want, "{} number and total are {:?} instead of {:?}", ["track", "disc"][w], single[w], want);
        // the stored representation
        let stored: Vec<Val> = t.data_of(&Fourcc(fcc(PAIR_IDS[w]))).map(Val::of).collect();
        ensure!(pair_of(&stored) == m[w], "{} is stored as {:?} instead of {:?}", PAIR_IDS[w], stored, m[w]);
    }
    Ok(())
}

fn pair_initials(thorough: bool) -> Vec<Vec<Val>> {
    let full = [0u8, 0, 1, 2, 0, 9, 7, 7, 5];
    let mut v = vec![vec![]];
    for n in 0..=9 {
        v.push(vec![Val::new(Kind::Reserved, &full[..n])]);
        if thorough || n % 2 == 1 {
            v.push(vec![Val::new(Kind::BeSigned, &full[..n])]);
        }
    }
    v.push(vec![Val::new(Kind::Reserved, &[0; 6])]);
    v.push(vec![Val::new(Kind::Reserved, &[0, 0, 0, 3, 0, 0])]);
    v.push(vec![Val::new(Kind::Reserved, &[0, 0, 0, 0, 1, 0, 0, 0])]);
    v.push(vec![Val::new(Kind::Reserved, &[255; 8])]);
    v.push(vec![Val::s("12")]);
    v.push(vec![Val::new(Kind::Png, &full[..8])]);
    v.push(vec![Val::s("x"), Val::new(Kind::Reserved, &full[..8])]);
    v.push(vec![Val::new(Kind::Reserved, &full[..4]), Val::new(Kind::Reserved, &[0, 0, 0, 8, 0, 9, 0, 0])]);
    v.push(vec![Val::new(Kind::Reserved, &[]), Val::s("y"), Val::new(Kind::Reserved, &full[..6])]);
    v
}

fn c13(run: &mut Run) {
    let inits = pair_initials(run.thorough());
    let mut initials = Vec::new();
    for a in &inits {
        for b in &inits {
            let items: Vec<(Id, Vec<Val>)> = vec![
                (Id::fc("\u{a9}nam"), vec![Val::s("title")]),
                (Id::fc("trkn"), a.clone()),
                (Id::fc("disk"), b.clone()),
                (Id::fc("tmpo"), vec![Val::new(Kind::BeSigned, &[0, 99])]),
            ];
            initials.push(Pairs { tag: tag_of(&items), model: [pair_of(a), pair_of(b)] });
        }
    }
    let nums = run.tiered(vec![0u16, 1, 0x0203, 0xFFFF], vec![0, 1, 255, 256, 0x0203, 0xFF00, 0xFFFF]);
    let mut ops = Vec::new();
    for w in 0..2 {
        for a in &nums {
            for b in &nums {
                ops.push(PairOp::SetBoth(w, *a, *b));
            }
            ops.push(PairOp::SetNumber(w, *a));
            ops.push(PairOp::SetTotal(w, *a));
        }
        ops.push(PairOp::Remove(w));
        ops.push(PairOp::RemoveNumber(w));
        ops.push(PairOp::RemoveTotal(w));
    }
    // all initial representations satisfy the model before any operation
    let inits = &inits;
    run.explore("stored representations", 0, |c| {
        let a = c.all_of(inits);
        let b = c.all_of(inits);
        let t = tag_of(&[(Id::fc("disk"), b.clone()), (Id::fc("trkn"), a.clone())]);
        c.step(1);
        c.state(&(a, b));
        guard("track and disc", || pair_views(&t, &[pair_of(a), pair_of(b)]))?
    });
    run.bfs("pair operations", initials, ops.len(), 60, |s, o| pair_apply(s, ops[o]), |s| key(&s.tag), |o| format!("{:?}", ops[o]));
    // every number in every place
    run.explore("all numbers", 0, |c| {
        let hi = c.all(256) as u16;
        let place = c.all(4);
        let (w, h) = (place / 2, place % 2);
        for lo in 0..256u16 {
            let n = hi << 8 | lo;
            let mut s = Pairs { tag: Tag::default(), model: [[0; 2]; 2] };
            let other = if h == 0 { PairOp::SetTotal(w, 7) } else { PairOp::SetNumber(w, 7) };
            let this = if h == 0 { PairOp::SetNumber(w, n) } else { PairOp::SetTotal(w, n) };
            for op in [this, other, this, PairOp::SetBoth(1 - w, n, n), if h == 0 { PairOp::RemoveTotal(w) } else { PairOp::RemoveNumber(w) }] {
                s = guard("pair operation", || pair_apply(&s, op))??.unwrap();
            }
            c.state(&(place, n));
        }
        c.step(256 * 5);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// C14

/// The ID3v1 genres (with the spellings the crate uses for some of them).
const ID3: [&[&str]; 80] = [
    &["Blues"],
    &["Classic rock", "Classic Rock"],
    &["Country"],
    &["Dance"],
    &["Disco"],
    &["Funk"],
    &["Grunge"],
    &["Hip,-Hop", "Hip-Hop"],
    &["Jazz"],
    &["Metal"],
    &["New Age"],
    &["Oldies"],
    &["Other"],
    &["Pop"],
    &["Rhythm and Blues", "R&B"],
    &["Rap"],
    &["Reggae"],
    &["Rock"],
    &["Techno"],
    &["Industrial"],
    &["Alternative"],
    &["Ska"],
    &["Death metal", "Death Metal"],
    &["Pranks"],
    &["Soundtrack"],
    &["Euro-Techno"],
    &["Ambient"],
    &["Trip-Hop"],
    &["Vocal"],
    &["Jazz & Funk", "Jazz+Funk"],
    &["Fusion"],
    &["Trance"],
    &["Classical"],
    &["Instrumental"],
    &["Acid"],
    &["House"],
    &["Game"],
    &["Sound clip", "Sound Clip"],
    &["Gospel"],
    &["Noise"],
    &["Alternative Rock", "AlternRock"],
    &["Bass"],
    &["Soul"],
    &["Punk"],
    &["Space"],
    &["Meditative"],
    &["Instrumental Pop"],
    &["Instrumental Rock"],
    &["Ethnic"],
    &["Gothic"],
    &["Darkwave"],
    &["Techno-Industrial"],
    &["Electronic"],
    &["Pop-Folk"],
    &["Eurodance"],
    &["Dream"],
    &["Southern Rock"],
    &["Comedy"],
    &["Cult"],
    &["Gangsta"],
    &["Top 41", "Top 40"],
    &["Christian Rap"],
    &["Pop/Funk"],
    &["Jungle"],
    &["Native US", "Native American"],
    &["Cabaret"],
    &["New Wave"],
    &["Psychedelic", "Psychadelic"],
    &["Rave"],
    &["Show tunes", "Showtunes"],
    &["Trailer"],
    &["Lo,-Fi", "Lo-Fi"],
    &["Tribal"],
    &["Acid Punk"],
    &["Acid Jazz"],
    &["Polka"],
    &["Retro"],
    &["Musical"],
    &["Rock \u{2019}n\u{2019} Roll", "Rock & Roll"],
    &["Hard Rock"],
];

#[derive(Clone)]
struct Genres {
    tag: Tag,
    /// stored values of gnre and of ©gen
    std: Vec<Val>,
    custom: Vec<Val>,
}

#[derive(Clone, Debug)]
enum GenreOp {
    SetStd(u16),
    SetStds(Vec<u16>),
    AddStd(u16),
    AddStds(Vec<u16>),
    RemoveStds,
    Set(&'static str),
    Sets(Vec<&'static str>),
    Add(&'static str),
    AddCustoms(Vec<&'static str>),
    SetCustoms(Vec<&'static str>),
    Take,
    Takes(bool),
    Remove,
    RemoveCustom,
    TakeCustoms,
}

fn code(v: &Val) -> Option<u16> {
    if v.kind.is_bytes() && v.bytes.len() >= 2 {
        Some((v.bytes[0] as u16) << 8 | v.bytes[1] as u16)
    } else {
        None
    }
}

/// Index of the genre with this code.
fn index(c: u16) -> Option<usize> {
    (1..=80).contains(&c).then(|| c as usize - 1)
}

fn coded(c: u16) -> Val {
    Val::new(Kind::Reserved, &c.to_be_bytes())
}

impl Genres {
    /// Standard genres by index, custom ones by name.
    fn view(&self) -> Vec<Result<usize, String>> {
        let mut v: Vec<Result<usize, String>> = self.std.iter().filter_map(code).filter_map(index).map(Ok).collect();
        v.extend(self.custom.iter().filter(|v| v.kind.is_text()).map(|v| Err(String::from_utf8(v.bytes.clone()).unwrap())));
        v
    }

    fn check(&self) -> Verdict {
        let t = &self.tag;
        let codes: Vec<u16> = self.std.iter().filter_map(code).collect();
        let got: Vec<u16> = t.standard_genres().collect();
        ensure!(got == codes, "standard_genres lists {:?} instead of {:?}", got, codes);
        ensure!(t.standard_genre() == codes.first().copied(), "standard_genre is {:?} instead of {:?}", t.standard_genre(), codes.first());
        let view = self.view();
        let got: Vec<&str> = t.genres().collect();
        same_view("genres", &got, &view)?;
        let got: Vec<&str> = t.genre().into_iter().collect();
        same_view("genre", &got, &view[..view.len().min(1)])?;
        let customs: Vec<&str> = t.custom_genres().collect();
        let n = view.iter().filter(|v| v.is_ok()).count();
        same_view("custom_genres", &customs, &view[n..])?;
        let got: Vec<&str> = t.custom_genre().into_iter().collect();
        same_view("custom_genre", &got, &view[n..view.len().min(n + 1)])?;
        // what is stored
        let mut want = Items::new();
        want.insert(Id::fc("\u{a9}nam"), vec![Val::s("title")]);
        for (id, l) in [("gnre", &self.std), ("\u{a9}gen", &self.custom)] {
            if !l.is_empty() {
                want.insert(Id::fc(id), l.clone());
            }
        }
        same_items("content", &items_of(t)?, &want)
    }
}

fn same_view(what: &str, got: &[&str], want: &[Result<usize, String>]) -> Verdict {
    let ok = got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match w {
            Ok(i) => ID3[*i].contains(g),
            Err(s) => g == s,
        });
    ensure!(ok, "{} is {:?} instead of {:?}", what, got, want);
    Ok(())
}

fn texts(l: &[&str]) -> Vec<Val> {
    l.iter().map(|s| Val::s(s)).collect()
}

fn genre_apply(s: &Genres, op: &GenreOp, max: usize) -> Result<Option<Genres>, String> {
    let mut s = s.clone();
    let view = s.view();
    let n = view.iter().filter(|v| v.is_ok()).count();
    let t = &mut s.tag;
    match op {
        GenreOp::SetStd(c) => {
            t.set_standard_genre(*c);
            s.std = vec![coded(*c)];
        }
        GenreOp::SetStds(l) => {
            t.set_standard_genres(l.iter().copied());
            s.std = l.iter().map(|c| coded(*c)).collect();
        }
        GenreOp::AddStd(c) => {
            t.add_standard_genre(*c);
            s.std.push(coded(*c));
        }
        GenreOp::AddStds(l) => {
            t.add_standard_genres(l.iter().copied());
            s.std.extend(l.iter().map(|c| coded(*c)));
        }
        GenreOp::RemoveStds => {
            t.remove_standard_genres();
            s.std.clear();
        }
        GenreOp::Set(x) => {
            t.set_genre(*x);
            s.std.clear();
            s.custom = texts(&[x]);
        }
        GenreOp::Sets(l) => {
            t.set_genres(l.iter().map(|s| s.to_string()));
            s.std.clear();
            s.custom = texts(l);
        }
        GenreOp::Add(x) => {
            t.add_genre(*x);
            s.custom.push(Val::s(x));
        }
        GenreOp::AddCustoms(l) => {
            t.add_custom_genres(l.iter().map(|s| s.to_string()));
            s.custom.extend(texts(l));
        }
        GenreOp::SetCustoms(l) => {
            t.set_custom_genres(l.iter().map(|s| s.to_string()));
            s.custom = texts(l);
        }
        GenreOp::Take => {
            let got = t.take_genre();
            let got: Vec<&str> = got.iter().map(|s| s.as_str()).collect();
            same_view("take_genre", &got, &view[..view.len().min(1)])?;
            s.custom.clear();
        }
        GenreOp::Takes(consume) => {
            let k = if *consume { usize::MAX } else { 0 };
            let got: Vec<String> = t.take_genres().take(k).collect();
            let got: Vec<&str> = got.iter().map(|s| s.as_str()).collect();
            same_view("take_genres", &got, &view[..view.len().min(k)])?;
            s.custom.clear();
        }
        GenreOp::Remove => {
            t.remove_genres();
            s.std.clear();
            s.custom.clear();
        }
        GenreOp::RemoveCustom => {
            t.remove_custom_genres();
            s.custom.clear();
        }
        GenreOp::TakeCustoms => {
            let got: Vec<String> = t.take_custom_genres().collect();
            let got: Vec<&str> = got.iter().map(|s| s.as_str()).collect();
            same_view("take_custom_genres", &got, &view[n..])?;
            s.custom.clear();
        }
    }
    if s.std.len() > max || s.custom.len() > max {
        return Ok(None);
    }
    s.check().map_err(|e| format!("after {:?}: {}", op, e))?;
    Ok(Some(s))
}

fn genres_of(std: &[Val], custom: &[Val]) -> Genres {
    let tag = tag_of(&[
        (Id::fc("\u{a9}nam"), vec![Val::s("title")]),
        (Id::fc("gnre"), std.to_vec()),
        (Id::fc("\u{a9}gen"), custom.to_vec()),
    ]);
    Genres { tag, std: std.to_vec(), custom: custom.to_vec() }
}

fn c14(run: &mut Run) {
    // all codes
    run.explore("all codes", 0, |c| {
        let hi = c.all(256) as u16;
        let shape = c.all(5);
        for lo in 0..256 {
            let code = hi << 8 | lo;
            let v = Val::new(if lo % 2 == 0 { Kind::Reserved } else { Kind::BeSigned }, &code.to_be_bytes());
            let g = match shape {
                0 => genres_of(&[v], &[]),
                1 => genres_of(&[v, coded(5)], &[]),
                2 => genres_of(&[coded(17), v], &[Val::s("Custom")]),
                3 => genres_of(&[v], &[Val::s("Blues"), Val::s16("x")]),
                // a longer representation
                _ => genres_of(&[Val::new(Kind::Reserved, &[code.to_be_bytes()[0], code.to_be_bytes()[1], 1, 2])], &[]),
            };
            c.state(&(shape, code));
            let r = guard("genre accessors", || {
                g.check()?;
                genre_apply(&g, &GenreOp::Take, 9)?;
                genre_apply(&g, &GenreOp::Takes(true), 9)?;
                genre_apply(&g, &GenreOp::SetStd(code), 9)?;
                genre_apply(&g, &GenreOp::AddStd(code), 9)
            })?;
            r.map_err(|e| format!("code {}: {}", code, e))?;
        }
        c.step(256 * 5);
        Ok(())
    });
    // the published list is the one that is used
    run.explore("published names", 0, |c| {
        let i = c.all(80);
        c.step(1);
        let l = mp4ameta::STANDARD_GENRES;
        ensure!(l.len() == 80, "there are {} standard genres", l.len());
        ensure!(ID3[i].contains(&l[i]), "standard genre {} is {:?}", i, l[i]);
        let mut t = Tag::default();
        t.set_standard_genre(i as u16 + 1);
        ensure!(t.genre() == Some(l[i]), "genre of code {} is {:?}", i + 1, t.genre());
        Ok(())
    });
    // histories
    let reps: Vec<Vec<Val>> = vec![
        vec![],
        vec![Val::new(Kind::Reserved, &[])],
        vec![Val::new(Kind::Reserved, &[4])],
        vec![Val::new(Kind::Reserved, &[0, 4, 9])],
        vec![Val::new(Kind::BeSigned, &[0, 80]), Val::new(Kind::Reserved, &[0, 81])],
        vec![Val::s("4"), coded(9)],
        vec![coded(0), Val::new(Kind::Png, &[0, 4])],
    ];
    let customs: Vec<Vec<Val>> = vec![
        vec![],
        vec![Val::s("")],
        vec![Val::s16("wide"), Val::s("c")],
        vec![Val::new(Kind::Reserved, &[0, 4])],
        vec![Val::new(Kind::Jpeg, &[1]), Val::s("after")],
    ];
    let mut initials = Vec::new();
    for a in &reps {
        for b in &customs {
            initials.push(genres_of(a, b));
        }
    }
    let mut ops = Vec::new();
    for c in [0u16, 1, 80, 81, 0x0100] {
        ops.push(GenreOp::SetStd(c));
        ops.push(GenreOp::AddStd(c));
    }
    for l in [vec![], vec![1], vec![80, 0], vec![81, 3]] {
        ops.push(GenreOp::SetStds(l.clone()));
        ops.push(GenreOp::AddStds(l));
    }
    for x in ["Blues", ""] {
        ops.push(GenreOp::Set(x));
        ops.push(GenreOp::Add(x));
    }
    for l in [vec![], vec!["x"], vec!["y", "x"]] {
        ops.push(GenreOp::Sets(l.clone()));
        ops.push(GenreOp::AddCustoms(l.clone()));
        ops.push(GenreOp::SetCustoms(l));
    }
    ops.extend([
        GenreOp::RemoveStds,
        GenreOp::Take,
        GenreOp::Takes(true),
        GenreOp::Takes(false),
        GenreOp::Remove,
        GenreOp::RemoveCustom,
        GenreOp::TakeCustoms,
    ]);
    let max = run.tiered(4, 5);
    let depth = run.tiered(40, 40);
    run.bfs("genre operations", initials, ops.len(), depth, |s, o| genre_apply(s, &ops[o], max), |s| key(&s.tag), |o| format!("{:?}", ops[o]));
}

#[allow(dead_code)]
fn unused(_: Img<Vec<u8>>, _: Data) {}
