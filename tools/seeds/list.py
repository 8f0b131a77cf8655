# Planted bugs: (id, property, [(file, old, new)...], needs, what it breaks, demonstration)
S = []

def seed(id, prop, edits, needs, what, demo):
    S.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo))

M = "src/atom/mod.rs"
T = "src/tag/mod.rs"

seed("c01-hdlr-length", "C01",
     [(M, "new_hdlr.len_or_zero() + new_ilst.len()", "new_ilst.len() + if ilst.is_some() { 0 } else { new_hdlr.len_or_zero() }")],
     "a file whose metadata atom has an item list but no handler",
     "the handler that is added isn't accounted for, so the rest of the file is overwritten",
     r'''
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2)]), udta(&[meta(&[ilst(&[atom(b"\xa9nam", &text("old"))])])])]), mdat(64)]);
    let mut t = Tag::default();
    t.set_title("a new title");
    let (r, a) = write(&t, &b);
    r.unwrap();
    assert_eq!(values(&read(&a).unwrap()), values(&t));
    assert_eq!(at(&a, "mdat").1, at(&b, "mdat").1);
''')

seed("c02-second-handler", "C02",
     [(M, "if hdlr.is_none() {", "if hdlr.is_none() || ilst.is_none() {")],
     "a file whose metadata atom has a handler but no item list",
     "the metadata atom gets a second handler",
     r'''
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[meta(&[hdlr(), atom(b"free", &[0; 20])])])]), mdat(64)]);
    let mut t = Tag::default();
    t.set_title("title");
    let a = written(&t, &b);
    assert_eq!(names(&a, "moov/udta/meta"), ["hdlr", "free", "ilst"]);
''')

seed("c02-extended-length", "C02",
     [(M, "writer.seek(SeekFrom::Current(4))?;\n            writer.write_all(&u64::to_be_bytes(new_len as u64))?;", "if len_diff != 0 {\n                writer.seek(SeekFrom::Current(4))?;\n                writer.write_all(&u64::to_be_bytes((new_len - len_diff.min(0)) as u64))?;\n            }")],
     "a parent of the item list that has a 64 bit length, and a write that makes the item list shorter",
     "the 64 bit length of the parent isn't reduced",
     r'''
    let items = [atom(b"\xa9nam", &text("a title that is rather long")), atom(b"\xa9alb", &text("album"))];
    let m = meta(&[hdlr(), ilst(&items)]);
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), long(b"udta", &m)]), mdat(64)]);
    let mut t = Tag::default();
    t.set_title("short");
    let a = written(&t, &b);
    assert_eq!(at(&a, "mdat").1, at(&b, "mdat").1);
    assert_eq!(names(&a, "moov"), ["mvhd", "udta"]);
    let k = kids(&a, 0, a.len());
    assert_eq!(k.len(), 3);
''')

seed("c03-first-mdat", "C03",
     [(M, "MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),", "MEDIA_DATA if mdat.is_none() => mdat = Some(Mdat::find(reader, head.size())?),")],
     "media data in front of and behind the movie",
     "chunk offsets of the media behind the movie aren't adjusted",
     r'''
    let first = mdat(30);
    let make = |o: u32| cat(&[ftyp(), first.clone(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2), stco(&[36, o])]), tagged(&[])]), mdat(64)]);
    let pos = at(&make(0), "mdat#1").0 as u32;
    let b = make(pos + 5);
    let mut t = Tag::default();
    t.set_title("title");
    let a = written(&t, &b);
    let (_, c) = at(&a, "moov/trak/mdia/minf/stbl/stco");
    let o = u32::from_be_bytes([c[12], c[13], c[14], c[15]]);
    assert_eq!(o as usize, at(&a, "mdat#1").0 + 5);
''')

seed("c03-second-track", "C03",
     [(M, "if let Some(a) = &stbl.co64 {", "if let (Some(a), true) = (&stbl.co64, chunk_offsets.is_empty()) {")],
     "a file with a 32 bit table in one track and a 64 bit table in a later one",
     "64 bit chunk offsets of later tracks aren't adjusted",
     r'''
    let make = |o: u32| cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2), stco(&[o])]), trak(&[co64(&[o as u64 + 8])]), tagged(&[])]), mdat(64)]);
    let pos = at(&make(0), "mdat").0 as u32;
    let b = make(pos);
    let mut t = Tag::default();
    t.set_title("title");
    let a = written(&t, &b);
    let (_, c) = at(&a, "moov/trak#1/mdia/minf/stbl/co64");
    assert_eq!(c[15] as usize + (c[14] as usize) * 256, at(&a, "mdat").0 + 8);
''')

seed("c05-short-atoms", "C05",
     [("src/atom/head.rs", "} else if len < 8 {", "} else if len == 0 || len & 7 != 0 && len < 8 && len > 4 {")],
     "an atom whose length is 2, 3 or 4",
     "reading such a file panics or never ends",
     r'''
    for l in 0..8u32 {
        let mut b = file(&[atom(b"\xa9nam", &text("x"))]);
        let p = at(&b, "moov/udta/meta").0;
        b[p..p + 4].copy_from_slice(&l.to_be_bytes());
        assert!(read(&b).is_err());
    }
''')

seed("c05-item-list-capacity", "C05",
     [("src/atom/ilst.rs", "let mut ilst = Vec::<AtomData>::new();", "let mut ilst = Vec::<AtomData>::with_capacity(size.content_len() as usize / 32);")],
     "an item list with a huge length inside parents with huge lengths",
     "memory is allocated for the claimed length of the item list",
     r'''
    let mut b = file(&[atom(b"\xa9nam", &text("x"))]);
    // 64 bit lengths for the whole hierarchy
    let il = long(b"ilst", &atom(b"\xa9nam", &text("x")));
    let m = long(b"meta", &cat(&[vec![0; 4], hdlr(), il]));
    let u = long(b"udta", &m);
    b = cat(&[ftyp(), long(b"moov", &u)]);
    let huge = (1u64 << 40).to_be_bytes();
    for (path, add) in &[("moov", 1u8), ("moov/udta", 0), ("moov/udta/meta", 0), ("moov/udta/meta/ilst", 0)] {
        let _ = (path, add);
    }
    // lengths, from the outermost inwards
    let mut p = ftyp().len();
    for i in 0..4u64 {
        let mut h = huge;
        h[7] = 0;
        h[6] = 255 - 4 * i as u8;
        b[p + 8..p + 16].copy_from_slice(&h);
        p += 16;
        if i == 2 {
            p += 4 + hdlr().len();
        }
    }
    assert!(read(&b).is_err());
''')

seed("c06-nested-find", "C06",
     [("src/atom/udta.rs", "METADATA => meta = Some(Meta::find(reader, head.size())?),", "METADATA if meta.is_none() => meta = Some(Meta::find(reader, head.size())?),")],
     "user data with two metadata atoms, of which reading uses the other one than writing",
     "the write succeeds, but the written items aren't found by reading",
     r'''
    let one = meta(&[hdlr(), ilst(&[atom(b"\xa9nam", &text("one"))])]);
    let two = meta(&[hdlr(), ilst(&[atom(b"\xa9nam", &text("two"))])]);
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[one, two])]), mdat(64)]);
    read(&b).unwrap();
    let mut t = Tag::default();
    t.set_title("new");
    let (r, a) = write(&t, &b);
    if r.is_ok() {
        assert_eq!(values(&read(&a).unwrap()), values(&t));
    }
''')

seed("c07-dump-buffered", "C07",
     [(T, "        let mut file = File::create(path)?;\n        self.dump_to(&mut file)", "        let mut file = std::io::BufWriter::new(File::create(path)?);\n        self.dump_to(&mut file)")],
     "a dump to a full device",
     "success is reported although nothing was written",
     r'''
    let mut t = Tag::default();
    t.set_title("title");
    assert!(t.dump_to_path("/dev/full").is_err());
''')

seed("c07-desc-eof", "C07",
     [("src/atom/head.rs", "    let mut flags = [0u8; 3];\n    if let Err(e) = reader.read_exact(&mut flags) {", "    let mut flags = [0u8; 3];\n    if let Err(e) = reader.read_exact(&mut flags).or_else(|e| match e.kind() {\n        std::io::ErrorKind::UnexpectedEof => Err(e),\n        _ if version == 0 => Ok(()),\n        _ => Err(e),\n    }) {")],
     "a reader that fails when the flags of a version 0 atom are read",
     "the failure isn't reported, and reading goes on with wrong data",
     r'''
    struct Failing(Cursor<Vec<u8>>, u64, bool);
    impl Read for Failing {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if !self.2 && self.0.position() == self.1 {
                self.2 = true;
                return Err(io::Error::new(io::ErrorKind::Other, "failed"));
            }
            self.0.read(b)
        }
    }
    impl Seek for Failing {
        fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
            self.0.seek(p)
        }
    }
    let b = file(&[atom(b"\xa9nam", &text("title"))]);
    for i in 0..b.len() as u64 {
        let mut f = Failing(Cursor::new(b.clone()), i, false);
        let r = Tag::read_from(&mut f);
        if f.2 {
            assert!(matches!(r, Err(Error { kind: ErrorKind::Io(_), .. })), "failure at {}: {:?}", i, r);
        }
    }
''')

seed("c08-single-write", "C08",
     [("src/atom/data.rs", "            Self::Bmp(v) => {\n                writer.write_all(v)?;", "            Self::Bmp(v) => {\n                writer.write(v)?;")],
     "a bmp image and a writer that accepts fewer bytes than offered",
     "the image is cut off",
     r'''
    struct Short(Vec<u8>);
    impl Write for Short {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            let n = b.len().min(5);
            self.0.extend(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut t = Tag::default();
    t.set_artwork(Img::bmp(vec![7u8; 100]));
    let mut w = Short(Vec::new());
    t.dump_to(&mut w).unwrap();
    assert_eq!(w.0, dump(&t));
''')

seed("c08-interrupted", "C08",
     [("src/atom/ftyp.rs", "        writer.write_all(self.0.as_bytes())?;", "        let mut rest = self.0.as_bytes();\n        while !rest.is_empty() {\n            match writer.write(rest)? {\n                0 => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),\n                n => rest = &rest[n..],\n            }\n        }")],
     "a writer that is interrupted while the file type is written",
     "the interruption is reported as a failure instead of being retried",
     r'''
    struct Int(Vec<u8>, usize, usize);
    impl Write for Int {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.1 += 1;
            if self.1 == self.2 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.0.extend(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    let mut t = Tag::default();
    t.set_title("title");
    for i in 1..30 {
        let mut w = Int(Vec::new(), 0, i);
        t.dump_to(&mut w).unwrap();
        assert_eq!(w.0, dump(&t));
    }
''')

seed("c02-handler-behind", "C02",
     [("src/atom/meta.rs", "HANDLER_REFERENCE => hdlr = Some(Hdlr::find(reader, head.size())?),", "HANDLER_REFERENCE if ilst.is_none() => {\n                    hdlr = Some(Hdlr::find(reader, head.size())?)\n                }")],
     "a metadata atom whose handler is behind the item list",
     "each write changes the file by adding a handler",
     r'''
    let m = meta(&[ilst(&[atom(b"\xa9nam", &text("title"))]), hdlr()]);
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[m])]), mdat(64)]);
    let t = read(&b).unwrap();
    let a = written(&t, &b);
    assert_eq!(a, b);
    assert_eq!(written(&t, &a), a);
''')

seed("c09-stale-tail", "C09",
     [(M, "file.set_len((old_file_len as i64 + len_diff) as u64)?;", "if len_diff > 0 || mdat_pos > moov.pos() {\n        file.set_len((old_file_len as i64 + len_diff) as u64)?;\n    }")],
     "a file whose movie is the last atom, written with a long and then with a short tag",
     "the end of the longer movie remains behind the shorter one",
     r'''
    let b = cat(&[ftyp(), mdat(64), moov(&[mvhd(600, 1200), tagged(&[])])]);
    let (mut long, mut short) = (Tag::default(), Tag::default());
    long.set_title("a rather long title");
    short.set_title("x");
    let direct = written(&short, &b);
    assert_eq!(written(&short, &written(&long, &b)), direct);
''')

seed("c10-adjacent-merge", "C10",
     [("src/atom/ilst.rs", "let other = ilst.iter_mut().find(|o| atom.ident == o.ident);", "let other = ilst.last_mut().filter(|o| atom.ident == o.ident);")],
     "items with the same identifier that aren't next to each other",
     "they aren't merged, so only the first ones are found",
     r'''
    let b = file(&[atom(b"\xa9ART", &text("one")), atom(b"\xa9nam", &text("t")), atom(b"\xa9ART", &text("two"))]);
    let t = read(&b).unwrap();
    assert_eq!(t.artists().collect::<Vec<_>>(), ["one", "two"]);
''')

seed("c10-padding-tail", "C10",
     [("src/atom/ilst.rs", "                FREE => {\n                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;", "                FREE => {\n                    reader.seek(SeekFrom::Current((size.content_len() - parsed_bytes) as i64 - 8))?;\n                    break;")],
     "padding between items",
     "items behind the padding are lost",
     r'''
    let b = file(&[atom(b"\xa9nam", &text("t")), atom(b"free", &[0; 9]), atom(b"\xa9ART", &text("one"))]);
    let t = read(&b).unwrap();
    assert_eq!((t.title(), t.artist()), (Some("t"), Some("one")));
''')

seed("c11-swap-remove", "C11",
     [(T, "a.data.remove(j);", "a.data.swap_remove(j);")],
     "retaining some of at least three values of an identifier",
     "the order of the remaining values changes",
     r'''
    let mut t = Tag::default();
    for s in &["a", "b", "c", "d"] {
        t.add_artist(*s);
    }
    t.retain_strings(|_, s| s != "a");
    assert_eq!(t.artists().collect::<Vec<_>>(), ["b", "c", "d"]);
''')

seed("c11-retain-first-empty", "C11",
     [(T, "            if a.data.is_empty() {\n                self.atoms.remove(i);\n            } else {\n                i += 1;\n            }", "            if a.data.is_empty() {\n                self.atoms.remove(i);\n            }\n            i += 1;")],
     "retaining values so that two identifiers in a row are emptied",
     "the identifier behind a removed one is skipped",
     r'''
    let mut t = Tag::default();
    t.set_title("a");
    t.set_album("b");
    t.set_artist("c");
    t.retain_strings(|_, s| s == "c");
    assert_eq!(t.data().count(), 1);
    assert_eq!(t.album(), None);
''')

seed("c11-remove-strings-utf16", "C11",
     [(T, "self.retain_data_of(ident, |d| !d.is_string());", "self.retain_data_of(ident, |d| !d.is_utf8());")],
     "an identifier with UTF-16 text",
     "UTF-16 text isn't removed with the strings",
     r'''
    let mut t = Tag::default();
    t.add_data(fc(b"test"), Data::Utf8("a".to_owned()));
    t.add_data(fc(b"test"), Data::Utf16("b".to_owned()));
    t.add_data(fc(b"test"), Data::Reserved(vec![1]));
    t.remove_strings_of(&fc(b"test"));
    assert_eq!(t.strings().count(), 0);
    assert_eq!(t.data().count(), 1);
''')

seed("c12-flag-value", "C12",
     [("proc/src/lib.rs", "self.set_data({ai}, Data::BeSigned(vec![1u8]));", "self.add_data({ai}, Data::BeSigned(vec![1u8]));")],
     "setting a flag that is stored as 0",
     "the flag remains unset, since the first value counts",
     r'''
    let mut t = Tag::default();
    t.set_data(fc(b"cpil"), Data::BeSigned(vec![0]));
    assert!(!t.compilation());
    t.set_compilation();
    assert!(t.compilation());
''')

seed("c12-take-artwork", "C12",
     [(T, "    pub fn take_artwork(&mut self) -> Option<ImgBuf> {\n        self.take_images_of(&ident::ARTWORK).next()", "    pub fn take_artwork(&mut self) -> Option<ImgBuf> {\n        self.take_images_of(&ident::ARTWORK).last()")],
     "taking the artwork of a tag with several",
     "the last instead of the first image is returned",
     r'''
    let mut t = Tag::default();
    t.add_artwork(Img::png(b"1".to_vec()));
    t.add_artwork(Img::jpeg(b"2".to_vec()));
    assert_eq!(t.take_artwork(), Some(Img::png(b"1".to_vec())));
    assert_eq!(t.artwork(), None);
''')

seed("c13-number-only", "C13",
     [("src/tag/tuple.rs", "            None => self.set_new_track(0, total_tracks),", "            None => self.set_new_track(total_tracks.min(1), total_tracks),")],
     "setting the total number of tracks of a tag without track number",
     "a track number appears that nobody set",
     r'''
    let mut t = Tag::default();
    t.set_total_tracks(9);
    assert_eq!(t.track(), (None, Some(9)));
''')

seed("c14-last-genre", "C14",
     [("src/tag/genre.rs", "if v.len() < 2 {", "if v.len() != 2 {")],
     "a standard genre code followed by further bytes",
     "the genre isn't found",
     r'''
    let mut t = Tag::default();
    t.set_data(fc(b"gnre"), Data::Reserved(vec![0, 5, 0]));
    t.add_custom_genre("own");
    assert_eq!(t.genres().collect::<Vec<_>>(), ["Disco", "own"]);
    assert_eq!(t.genre(), Some("Disco"));
''')

seed("c14-set-empty", "C14",
     [("src/tag/genre.rs", "        self.set_custom_genres(genres);\n        self.remove_standard_genres();", "        self.set_custom_genres(genres);\n        if self.custom_genre().is_some() {\n            self.remove_standard_genres();\n        }")],
     "setting an empty list of genres",
     "standard genres remain",
     r'''
    let mut t = Tag::default();
    t.set_standard_genre(5);
    t.set_genres(Vec::new());
    assert_eq!(t.genres().count(), 0);
''')

seed("c15-first-track", "C15",
     [(M, "let mp4a = moov.trak.into_iter().find_map(|trak| {", "let mp4a = moov.trak.into_iter().take(2).find_map(|trak| {")],
     "a file whose audio track is the third one",
     "no audio information is reported",
     r'''
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[]), trak(&[stsd_of(&[atom(b"avc1", &[0; 70])])]), trak(&[stsd(3, 6)]), tagged(&[])]), mdat(64)]);
    let t = read(&b).unwrap();
    assert_eq!(t.channel_config(), Some(ChannelConfig::FiveOne));
    assert_eq!(t.avg_bitrate(), Some(128_000));
''')

seed("c15-long-duration", "C15",
     [("src/atom/mvhd.rs", "                let duration = reader.read_u64()?;", "                let duration = reader.read_u64()? & 0xFFFF_FFFF;")],
     "a version 1 movie header with a duration beyond 32 bits",
     "the duration is cut off",
     r'''
    let mut v = vec![1, 0, 0, 0];
    v.extend([0; 16]);
    v.extend(1000u32.to_be_bytes());
    v.extend(5_000_000_000_000u64.to_be_bytes());
    v.extend([0; 80]);
    let b = cat(&[ftyp(), moov(&[atom(b"mvhd", &v), tagged(&[])]), mdat(64)]);
    assert_eq!(read(&b).unwrap().duration(), Some(std::time::Duration::from_secs(5_000_000_000)));
''')

seed("c15-extra-descriptor", "C15",
     [("src/atom/mp4a.rs", "            DECODER_CONFIG_DESCRIPTOR => parse_dc_desc(reader, info, desc_len)?,", "            DECODER_CONFIG_DESCRIPTOR if parsed_bytes == 3 => {\n                parse_dc_desc(reader, info, desc_len)?\n            }")],
     "a descriptor in front of the decoder config",
     "channel configuration, sample rate and bitrates are missing",
     r'''
    let mut dc = vec![0x40, 0x15, 0, 0, 0];
    dc.extend(7u32.to_be_bytes());
    dc.extend(5u32.to_be_bytes());
    dc.extend(desc(5, &[0x12, 0x10]));
    let es = cat(&[vec![0, 1, 0], desc(0x0E, &[1, 2, 3]), desc(4, &dc), desc(6, &[2])]);
    let e = full(b"esds", &desc(3, &es));
    let m = atom(b"mp4a", &cat(&[vec![0; 28], e]));
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd_of(&[m])]), tagged(&[])]), mdat(64)]);
    let t = read(&b).unwrap();
    assert_eq!((t.max_bitrate(), t.avg_bitrate()), (Some(7), Some(5)));
    assert_eq!(t.sample_rate(), Some(SampleRate::Hz44100));
''')

seed("c16-no-truncation", "C16",
     [(T, "        let mut file = File::create(path)?;\n        self.dump_to(&mut file)", "        let mut file = OpenOptions::new().write(true).create(true).open(path)?;\n        self.dump_to(&mut file)")],
     "a dump to a path that holds a longer file",
     "the end of the previous content remains",
     r'''
    let p = dir().join("dump.m4a");
    let mut t = Tag::default();
    t.set_title("a long title");
    t.dump_to_path(&p).unwrap();
    t.set_title("x");
    t.dump_to_path(&p).unwrap();
    assert_eq!(std::fs::read(&p).unwrap(), dump(&t));
''')

seed("c17-lossy", "C17",
     [("src/atom/data.rs", "        Ok(String::from_utf16(&data)?)", "        Ok(String::from_utf16_lossy(&data))")],
     "stored UTF-16 text with an unpaired surrogate",
     "the text is altered silently",
     r'''
    let b = file(&[atom(b"\xa9nam", &data(2, &[0, 0x41, 0xD8, 0x00, 0, 0x42]))]);
    assert!(matches!(read(&b), Err(Error { kind: ErrorKind::Utf16StringDecoding(_), .. })));
''')

seed("c17-image-mut", "C17",
     [("src/atom/data.rs", "            Self::Jpeg(v) => Some(Img::new(ImgFmt::Jpeg, v)),\n            Self::Png(v) => Some(Img::new(ImgFmt::Png, v)),\n            Self::Bmp(v) => Some(Img::new(ImgFmt::Bmp, v)),\n            _ => None,\n        }\n    }\n\n    /// Returns a reference to image data if", "            Self::Jpeg(v) => Some(Img::new(ImgFmt::Jpeg, v)),\n            Self::Png(v) => Some(Img::new(ImgFmt::Png, v)),\n            Self::Bmp(v) => Some(Img::new(ImgFmt::Png, v)),\n            _ => None,\n        }\n    }\n\n    /// Returns a reference to image data if")],
     "taking a bmp image",
     "a consumed bmp image is returned as png",
     r'''
    let mut t = Tag::default();
    t.set_artwork(Img::bmp(b"x".to_vec()));
    assert_eq!(t.take_artwork(), Some(Img::bmp(b"x".to_vec())));
''')

seed("c18-explicit-code", "C18",
     [("src/types.rs", "const EXPLICIT: u8 = 4;", "const EXPLICIT: u8 = 1;")],
     "looking at the stored code of an explicit rating",
     "explicit is stored with a code that isn't the documented one",
     r'''
    let mut t = Tag::default();
    t.set_advisory_rating(AdvisoryRating::Explicit);
    assert_eq!(t.bytes_of(&fc(b"rtng")).next(), Some(&[4][..]));
''')

seed("c18-rates", "C18",
     [("src/types.rs", "            HZ_12000 => Ok(Self::Hz12000),\n            HZ_11025 => Ok(Self::Hz11025),", "            HZ_11025 => Ok(Self::Hz12000),\n            HZ_12000 => Ok(Self::Hz11025),")],
     "a file with a sample rate of 12000 or 11025 Hz",
     "the two are exchanged",
     r'''
    assert_eq!(SampleRate::try_from(9).unwrap().hz(), 12000);
    assert_eq!(SampleRate::try_from(10).unwrap().hz(), 11025);
''')

seed("c18-two-bytes", "C18",
     [(T, "        let vec = self.bytes_of(&ident::MEDIA_TYPE).next()?;\n\n        if vec.is_empty() {", "        let vec = self.bytes_of(&ident::MEDIA_TYPE).next()?;\n\n        if vec.len() != 1 {")],
     "a media type stored with further bytes",
     "the media type isn't found",
     r'''
    let mut t = Tag::default();
    t.set_data(fc(b"stik"), Data::BeSigned(vec![2, 0]));
    assert_eq!(t.media_type(), Some(MediaType::AudioBook));
''')

seed("c19-data-type", "C19",
     [(M, "let datatype = u32::from_be_bytes([0, b2, b1, b0]);", "let datatype = u32::from_be_bytes([0, 0, b1, b0]) | (b2 as u32 >> 7);")],
     "a data type beyond 16 bits",
     "it is taken for another one, or reported with another number",
     r'''
    for code in &[0x10001u32, 0x20000, 0x7F0001] {
        let b = file(&[atom(b"\xa9nam", &data(*code, b"x"))]);
        match read(&b) {
            Err(Error { kind: ErrorKind::UnknownDataType(c), .. }) => assert_eq!(c, *code),
            r => panic!("{:?}", r),
        }
    }
''')

seed("c19-missing-movie", "C19",
     [(M, "        if parsed_bytes >= len {\n            return Err(crate::Error::new(\n                ErrorKind::AtomNotFound(MOVIE),", "        if parsed_bytes >= len {\n            return Err(crate::Error::new(\n                if parsed_bytes == 0 { ErrorKind::NoTag } else { ErrorKind::AtomNotFound(MOVIE) },")],
     "a file that consists of a file type only",
     "the missing movie is reported as a missing tag",
     r'''
    match read(&ftyp()) {
        Err(Error { kind: ErrorKind::AtomNotFound(f), .. }) => assert_eq!(f, fc(b"moov")),
        r => panic!("{:?}", r),
    }
''')

seed("c19-meta-version", "C19",
     [("src/atom/stsd.rs", "        if version != 0 {", "        if version > 1 {")],
     "a sample description of version 1",
     "the unsupported version isn't reported",
     r'''
    let mut s = stsd(4, 2);
    s[8] = 1;
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[s]), tagged(&[])]), mdat(64)]);
    match read(&b) {
        Err(Error { kind: ErrorKind::UnknownVersion(v), .. }) => assert_eq!(v, 1),
        r => panic!("{:?}", r),
    }
''')

seed("c20-hours", "C20",
     [("src/tag/readonly.rs", "let minutes = total_seconds / 60 % 60;", "let minutes = total_seconds / 60 % 24;")],
     "a duration of more than 24 minutes",
     "the printed duration is wrong",
     r'''
    let b = cat(&[ftyp(), moov(&[mvhd(1, 31 * 60 + 5), tagged(&[])]), mdat(64)]);
    assert!(read(&b).unwrap().to_string().contains("duration: 31:05\n"));
''')

seed("c20-freeform", "C20",
     [(T, "            if let DataIdent::Freeform { .. } = &a.ident {", "            if let (DataIdent::Freeform { .. }, false) = (&a.ident, a.is_empty()) {")],
     "a freeform item that only has empty values",
     "the item isn't listed",
     r'''
    let mut t = Tag::default();
    t.set_data(FreeformIdent::new("m", "n"), Data::Utf8(String::new()));
    assert!(t.to_string().contains("----:m:n"));
''')

seed("c20-artworks", "C20",
     [(T, "        if self.artworks().count() > 1 {", "        if self.artworks().count() > 2 {")],
     "a tag with two artworks",
     "only the first one is listed",
     r'''
    let mut t = Tag::default();
    t.add_artwork(Img::png(b"1".to_vec()));
    t.add_artwork(Img::jpeg(b"2".to_vec()));
    let s = t.to_string();
    assert!(s.contains("png") && s.contains("jpeg"), "{}", s);
''')

seed("c21-case", "C21",
     [("src/atom/ident.rs", "DataIdent::Freeform { mean, name } => self.mean == mean && self.name == name,", "DataIdent::Freeform { mean, name } => {\n                self.mean.eq_ignore_ascii_case(mean) && self.name == name\n            }")],
     "freeform identifiers whose mean differs in case only",
     "they are taken to be equal",
     r'''
    let mut t = Tag::default();
    t.set_data(FreeformIdent::new("com.apple.itunes", "X"), Data::Utf8("1".to_owned()));
    assert_eq!(t.data_of(&FreeformIdent::new("com.apple.iTunes", "X")).count(), 0);
''')

seed("c21-match", "C21",
     [("src/atom/ident.rs", "a.fourcc() == b.fourcc() && a.freeform() == b.freeform()", "a.fourcc() == b.fourcc() && a.freeform().map(|f| f.name) == b.freeform().map(|f| f.name)")],
     "freeform identifiers with the same name and different means",
     "they match",
     r'''
    let (a, b) = (FreeformIdent::new("m", "X"), DataIdent::freeform("n", "X"));
    assert!(!idents_match(&a, &b));
    assert!(idents_match(&a, &DataIdent::freeform("m", "X")));
''')

seed("c21-display", "C21",
     [("src/atom/ident.rs", "impl fmt::Display for Fourcc {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        write!(f, \"{}\", self.0.iter().map(|b| char::from(*b)).collect::<String>())", "impl fmt::Display for Fourcc {\n    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {\n        let printable = self.0.iter().filter(|b| !b.is_ascii_control());\n        write!(f, \"{}\", printable.map(|b| char::from(*b)).collect::<String>())")],
     "a code with control characters",
     "two different codes are printed alike",
     r'''
    assert_eq!(Fourcc(*b"a\x01b\x7f").to_string(), "a\u{1}b\u{7f}");
''')

seed("c22-create", "C22",
     [(T, "OpenOptions::new().read(true).write(true).open(path)?", "OpenOptions::new().read(true).write(true).create(true).open(path)?")],
     "writing to a path that doesn't exist",
     "an empty file is created, and the error isn't one of a missing file",
     r'''
    let p = dir().join("missing.m4a");
    let r = Tag::default().write_to_path(&p);
    assert!(matches!(r, Err(Error { kind: ErrorKind::Io(e), .. }) if e.kind() == io::ErrorKind::NotFound));
    assert!(!p.exists());
''')

seed("c22-read-write", "C22",
     [(T, "let mut file = BufReader::new(File::open(path)?);", "let mut file = BufReader::new(OpenOptions::new().read(true).append(true).create(true).open(path)?);")],
     "reading a path that doesn't exist",
     "reading creates an empty file",
     r'''
    let p = dir().join("missing.m4a");
    let r = Tag::read_from_path(&p);
    assert!(matches!(r, Err(Error { kind: ErrorKind::Io(e), .. }) if e.kind() == io::ErrorKind::NotFound));
    assert!(!p.exists());
''')

seed("c01-empty-values-skipped", "C01",
     [(M, "        for d in self.data.iter() {\n", "        for d in self.data.iter().filter(|d| self.data.len() == 1 || !d.is_empty()) {\n"),
      (M, "        match &self.ident {\n            DataIdent::Fourcc(_) => Size::from(data_len),", "        // empty values next to others aren't stored\n        let skipped = self.data.iter().filter(|d| self.data.len() > 1 && d.is_empty()).count();\n        let data_len = data_len - 16 * skipped as u64;\n\n        match self.ident {\n            DataIdent::Fourcc(_) => Size::from(data_len),"),
      (M, "            DataIdent::Freeform { mean, name } => {\n                let mean_len", "            DataIdent::Freeform { ref mean, ref name } => {\n                let mean_len")],
     "an identifier with several values of which one is empty; both the length and the writing skip it",
     "an empty value next to others is lost by writing",
     r'''
    let mut t = Tag::default();
    t.add_artist("one");
    t.add_artist("");
    t.add_artist("three");
    let b = written(&t, &file(&[]));
    assert_eq!(values(&read(&b).unwrap()), values(&t));
''')

seed("c02-trailing-data", "C02",
     [(M, "    writer.write_all(&moved_data)?;\n", "    match mdat_pos {\n        0 => writer.write_all(&moved_data[..(moov.end() - moved_data_start) as usize])?,\n        _ => writer.write_all(&moved_data)?,\n    }\n")],
     "a file without media data but with other atoms behind the movie",
     "atoms behind the movie are lost",
     r'''
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), tagged(&[])]), atom(b"free", &[3; 30]), atom(b"uuid", &[9; 40])]);
    let mut t = Tag::default();
    t.set_title("title");
    let a = written(&t, &b);
    assert_eq!(names(&a, "moov"), ["mvhd", "udta"]);
    assert_eq!(kids(&a, 0, a.len()).len(), 4);
    assert_eq!(at(&a, "uuid").1, [9; 40]);
''')

seed("c03-adjacent-media", "C03",
     [(M, "    if mdat_pos > moov.pos() {", "    if mdat_pos > moov.end() {")],
     "media data right behind the movie",
     "chunk offsets aren't adjusted",
     r'''
    let make = |o: u32| cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2), stco(&[o])]), tagged(&[])]), mdat(64)]);
    let pos = at(&make(0), "mdat").0 as u32;
    let mut t = Tag::default();
    t.set_title("title");
    let a = written(&t, &make(pos + 5));
    let (_, c) = at(&a, "moov/trak/mdia/minf/stbl/stco");
    assert_eq!(u32::from_be_bytes([c[8], c[9], c[10], c[11]]) as usize, at(&a, "mdat").0 + 5);
''')

seed("c04-early-length", "C04",
     [(M, "    len_diff += new_atom_len as i64;\n", "    len_diff += new_atom_len as i64;\n\n    // reserving the space that is needed\n    let grown = len_diff.max(0) as u64;\n    file.set_len(file.metadata()?.len() + grown)?;\n"),
      (M, "    let mut writer = BufWriter::new(file);\n", "    moved_data.truncate(moved_data.len() - grown as usize);\n    let old_file_len = old_file_len - grown;\n\n    let mut writer = BufWriter::new(file);\n"),
      (M, "    file.set_len((old_file_len as i64 + len_diff) as u64)?;\n", "    if len_diff < 0 {\n        file.set_len((old_file_len as i64 + len_diff) as u64)?;\n    }\n")],
     "a write that makes a file longer and is refused because of a chunk offset table",
     "the file is extended before the chunk offset tables are checked",
     r'''
    let mut table = stco(&[100, 200]);
    table[15] = 7;
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2), table]), udta(&[])]), mdat(64)]);
    let mut t = Tag::default();
    t.set_title("title");
    let (r, a) = write(&t, &b);
    assert!(r.is_err());
    assert_eq!(a, b);
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[])]), mdat(64)]);
    assert_eq!(read(&written(&t, &b)).unwrap().title(), Some("title"));
''')

seed("c04-early-lengths", "C04",
     [(M, "    len_diff += new_atom_len as i64;\n", "    len_diff += new_atom_len as i64;\n\n    let mut heads = BufWriter::new(file);\n\n    // updating ilst hierarchy atom lengths\n    for a in update_atoms.iter().rev() {\n        let new_len = a.len() as i64 + len_diff;\n        heads.seek(SeekFrom::Start(a.pos()))?;\n        if a.ext() {\n            heads.write_all(&u32::to_be_bytes(1))?;\n            heads.seek(SeekFrom::Current(4))?;\n            heads.write_all(&u64::to_be_bytes(new_len as u64))?;\n        } else {\n            heads.write_all(&u32::to_be_bytes(new_len as u32))?;\n        }\n    }\n    heads.flush()?;\n"),
      (M, "    // update existing ilst hierarchy atom lengths\n    for a in update_atoms.iter().rev() {\n        let new_len = a.len() as i64 + len_diff;\n        writer.seek(SeekFrom::Start(a.pos()))?;\n        if a.ext() {\n            writer.write_all(&u32::to_be_bytes(1))?;\n            writer.seek(SeekFrom::Current(4))?;\n            writer.write_all(&u64::to_be_bytes(new_len as u64))?;\n        } else {\n            writer.write_all(&u32::to_be_bytes(new_len as u32))?;\n        }\n    }\n\n    // adjusting the file length", "    // adjusting the file length")],
     "a write that is refused because of the chunk offset table of a track",
     "the lengths of the parents are changed although the write is refused",
     r'''
    let make = |o: u32| {
        let mut broken = stco(&[o, o + 4]);
        broken[15] = 3;
        cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2), stco(&[o])]), trak(&[broken]), tagged(&[])]), mdat(64)])
    };
    let pos = at(&make(0), "mdat").0 as u32;
    let b = make(pos);
    let mut t = Tag::default();
    t.set_title("title");
    let (r, a) = write(&t, &b);
    assert!(r.is_err());
    assert_eq!(a, b);
''')

seed("c06-table-length", "C06",
     [("src/atom/co64.rs", "if 8 + 8 * entries as u64 != size.content_len() {", "if 8 + (8 * entries) as u64 != size.content_len() {")],
     "a 64 bit chunk offset table that claims more than 2^29 entries",
     "writing panics because of an overflow",
     r'''
    let mut table = co64(&[100]);
    table[12..16].copy_from_slice(&0x2000_0001u32.to_be_bytes());
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[stsd(4, 2), table]), tagged(&[])]), mdat(64)]);
    let mut t = Tag::default();
    t.set_title("title");
    let (r, a) = write(&t, &b);
    assert!(r.is_err());
    assert_eq!(a, b);
''')

seed("c07-unflushed-moved-data", "C07",
     [(M, "    writer.write_all(&moved_data)?;\n    writer.flush()?;", "    writer.write_all(&moved_data)?;")],
     "a write whose last buffered bytes can't be written",
     "the failure is swallowed when the buffer is dropped",
     r'''
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn signal(s: i32, h: usize) -> usize;
    }
    let items = [atom(b"\xa9nam", &text("a title that is considerably longer than the new one"))];
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), tagged(&items)]), atom(b"free", &[5; 600])]);
    let p = dir().join("limited.m4a");
    let mut t = Tag::default();
    t.set_title("title");
    // the file becomes shorter, but bytes beyond a limit can't be written
    for limit in (200..b.len() as u64).step_by(25) {
        std::fs::write(&p, &b).unwrap();
        let f = OpenOptions::new().read(true).write(true).open(&p).unwrap();
        let r = unsafe {
            signal(25, 1);
            setrlimit(1, &[limit, u64::MAX]);
            let r = t.write_to(&f);
            setrlimit(1, &[u64::MAX, u64::MAX]);
            r
        };
        let a = std::fs::read(&p).unwrap();
        if r.is_ok() {
            assert_eq!(read(&a).unwrap().title(), Some("title"));
            assert_eq!(at(&a, "free").1, &[5; 600][..]);
        }
    }
''')

seed("c08-absolute-start", "C08",
     [(M, "    let Ftyp(ftyp) = Ftyp::parse(reader)?;\n\n    let len = data::remaining_stream_len(reader)?;", "    let Ftyp(ftyp) = Ftyp::parse(reader)?;\n\n    // the remaining length behind the filetype atom\n    let start = 8 + ftyp.len() as u64;\n    let len = reader.seek(SeekFrom::End(0))?.saturating_sub(start);\n    reader.seek(SeekFrom::Start(start))?;")],
     "a reader that isn't positioned at the start of the stream",
     "the position behind the file type is taken to be an absolute one",
     r'''
    let whole = file(&[atom(b"\xa9nam", &text("title"))]);
    let mut c = Cursor::new(cat(&[vec![1; 1000], whole.clone()]));
    c.set_position(1000);
    assert_eq!(Tag::read_from(&mut c).unwrap(), read(&whole).unwrap());
''')

seed("c10-mean-first", "C10",
     [(M, "                NAME => {\n", "                NAME if mean.is_some() => {\n")],
     "a freeform item whose name is stored in front of its mean",
     "the item isn't named by its mean and name",
     r'''
    let i = atom(b"----", &cat(&[full(b"name", b"N"), full(b"mean", b"M"), text("x")]));
    let t = read(&file(&[i])).unwrap();
    assert_eq!(t.strings_of(&FreeformIdent::new("M", "N")).collect::<Vec<_>>(), ["x"]);
''')

seed("c12-read-only-ident", "C12",
     [("src/atom/ident.rs", 'pub const TV_NETWORK_NAME: Fourcc = Fourcc(*b"tvnn");', 'pub const TV_NETWORK_NAME: Fourcc = Fourcc(*b"tven");')],
     "using both the name of the episode and the name of the network",
     "they share one identifier",
     r'''
    let mut t = Tag::default();
    t.set_tv_episode_name("episode");
    t.set_tv_network_name("network");
    assert_eq!((t.tv_episode_name(), t.tv_network_name()), (Some("episode"), Some("network")));
''')

seed("c12-wide-number", "C12",
     [("proc/src/lib.rs", "    /// Sets the {n} (`{ais}`)\n    pub fn set_{vi}(&mut self, {vi}: u32) {{\n        let vec: Vec<u8> = {vi}.to_be_bytes().to_vec();", "    /// Sets the {n} (`{ais}`)\n    pub fn set_{vi}(&mut self, {vi}: u32) {{\n        let vec: Vec<u8> = ({vi} & 0xFF_FFFF).to_be_bytes().to_vec();")],
     "a number of an episode beyond 24 bits",
     "it is cut off",
     r'''
    let mut t = Tag::default();
    t.set_tv_episode(0x1234_5678);
    assert_eq!(t.tv_episode(), Some(0x1234_5678));
''')

seed("c13-total-discs", "C13",
     [("src/tag/tuple.rs", "            Some(v) => set_total(v, total_discs),", "            Some(v) => {\n                // the unused end isn't needed\n                v.truncate(6);\n                set_total(v, total_discs);\n                if total_discs == 0 {\n                    v.truncate(3);\n                }\n            }")],
     "setting the total number of discs to zero",
     "the number of the disc is lost too",
     r'''
    let mut t = Tag::default();
    t.set_disc(3, 4);
    t.set_total_discs(0);
    assert_eq!(t.disc(), (Some(3), None));
''')

seed("c13-short-pair", "C13",
     [("src/tag/tuple.rs", "        let vec = match self.bytes_of(&atom::DISC_NUMBER).next() {\n            Some(v) => v,\n            None => return (None, None),\n        };", "        let vec = match self.bytes_of(&atom::DISC_NUMBER).next() {\n            Some(v) if v.len() >= 6 => v,\n            _ => return (None, None),\n        };")],
     "a disc number that is stored without a total",
     "the pair says that there's no number",
     r'''
    let mut t = Tag::default();
    t.set_data(fc(b"disk"), Data::Reserved(vec![0, 0, 0, 2]));
    assert_eq!(t.disc_number(), Some(2));
    assert_eq!(t.disc(), (Some(2), None));
''')

seed("c09-nothing-to-write", "C09",
     [(M, "    let ilst = meta.as_ref().and_then(|a| a.ilst.as_ref());\n", "    let ilst = match meta.as_ref().and_then(|a| a.ilst.as_ref()) {\n        // nothing to remove and nothing to write\n        None if atoms.is_empty() => return Ok(()),\n        a => a,\n    };\n")],
     "writing an empty tag onto a file without an item list, directly or after another write",
     "the result depends on what was written before",
     r'''
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[])]), mdat(64)]);
    let mut t = Tag::default();
    let direct = written(&t, &b);
    t.set_title("title");
    let other = written(&t, &b);
    t.remove_title();
    assert_eq!(written(&t, &other), direct);
''')

seed("c14-last-code", "C14",
     [("src/tag/genre.rs", "    if c > 0 && c <= STANDARD_GENRES.len() {", "    if c > 0 && c < STANDARD_GENRES.len() {")],
     "the last standard genre",
     "it isn't found",
     r'''
    let mut t = Tag::default();
    t.set_standard_genre(80);
    assert_eq!(t.genre(), Some("Hard Rock"));
''')

seed("c14-take-empty", "C14",
     [("src/tag/genre.rs", "            .chain(self.take_custom_genres())", "            .chain(self.take_custom_genres().filter(|g| !g.is_empty()))")],
     "taking the genres of a tag with an empty custom genre",
     "the empty one isn't returned",
     r'''
    let mut t = Tag::default();
    t.set_standard_genres(vec![1, 2]);
    t.add_custom_genre("");
    t.add_custom_genre("own");
    assert_eq!(t.take_genres().collect::<Vec<_>>(), ["Blues", "Classic rock", "", "own"]);
''')

seed("c16-odd-sizes", "C16",
     [("src/atom/data.rs", "                for c in s.encode_utf16() {\n", "                for c in s.encode_utf16().filter(|c| *c != 0xFEFF) {\n")],
     "UTF-16 text with a byte order mark",
     "less bytes are written than the lengths in the dump claim",
     r'''
    let mut t = Tag::default();
    t.set_data(fc(b"test"), Data::Utf16("\u{feff}ab".to_owned()));
    t.set_title("title");
    assert_eq!(values(&read(&dump(&t)).unwrap()), values(&t));
''')

seed("c17-bom", "C17",
     [("src/atom/data.rs", "            UTF8 => Data::Utf8(reader.read_utf8(len)?),", "            UTF8 => Data::Utf8(reader.read_utf8(len)?.trim_start_matches('\\u{feff}').to_owned()),")],
     "text that starts with U+FEFF",
     "the character is lost by storing and reading the text",
     r'''
    let mut t = Tag::default();
    t.set_title("\u{feff}title");
    assert_eq!(read(&dump(&t)).unwrap().title(), t.title());
''')

seed("c22-replace", "C22",
     [(T, "        let mut file = File::create(path)?;\n        self.dump_to(&mut file)", "        let path = path.as_ref();\n        if path.is_file() {\n            std::fs::remove_file(path)?;\n        }\n        let mut file = OpenOptions::new().write(true).create_new(true).open(path)?;\n        self.dump_to(&mut file)")],
     "a dump to a path that is a link to another file",
     "the link instead of the file it names is replaced",
     r'''
    let (p, l) = (dir().join("file.m4a"), dir().join("link.m4a"));
    std::fs::write(&p, b"old").unwrap();
    std::os::unix::fs::symlink(&p, &l).unwrap();
    let t = Tag::default();
    t.dump_to_path(&l).unwrap();
    assert_eq!(std::fs::read(&p).unwrap(), dump(&t));
    assert!(std::fs::symlink_metadata(&l).unwrap().file_type().is_symlink());
''')

seed("c02-short-handler", "C02",
     [(M, "    if hdlr.is_none() {\n", "    if hdlr.map_or(true, |h| h.content_len() < 25) {\n")],
     "a handler without the terminator of its empty name, as QuickTime writes it",
     "the metadata atom gets a second handler",
     r'''
    let h = atom(b"hdlr", b"\0\0\0\0\0\0\0\0mdirappl\0\0\0\0\0\0\0\0");
    let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[meta(&[h, ilst(&[atom(b"\xa9nam", &text("old"))])])])]), mdat(64)]);
    let mut t = Tag::default();
    t.set_title("title");
    assert_eq!(names(&written(&t, &b), "moov/udta/meta"), ["hdlr", "ilst"]);
''')

seed("c02-equal-length", "C02",
     [(M, "        if let Some(a) = new_hdlr {\n            a.write(&mut writer)?;\n        }\n        new_ilst.write(&mut writer)?;", "        if len_diff != 0 || ilst.is_none() {\n            if let Some(a) = new_hdlr {\n                a.write(&mut writer)?;\n            }\n        }\n        new_ilst.write(&mut writer)?;")],
     "a metadata atom without a handler, and a new item list that is shorter by just the length of the handler",
     "the handler is left out, and what was there remains behind the item list",
     r'''
    let m = |s: usize| meta(&[ilst(&[atom(b"\xa9nam", &text(&"x".repeat(s)))])]);
    let mut t = Tag::default();
    t.set_title("yy");
    for n in 30..50 {
        let b = cat(&[ftyp(), moov(&[mvhd(600, 1200), udta(&[m(n)])]), mdat(64)]);
        let a = written(&t, &b);
        assert_eq!(names(&a, "moov/udta/meta"), ["hdlr", "ilst"], "{}", n);
    }
''')

seed("c10-long-name", "C10",
     [(M, "(FREEFORM, Some(mean), Some(name)) => DataIdent::Freeform { mean, name },", "(FREEFORM, Some(mean), Some(name)) => {\n                DataIdent::Freeform { mean, name: name.chars().take(u16::MAX as usize).collect() }\n            }")],
     "a freeform item with a name of more than 65535 bytes",
     "the item is found under another name",
     r'''
    let n = "n".repeat(65536);
    let t = read(&file(&[free_item("mean", &n, &[text("value")])])).unwrap();
    assert_eq!(t.strings_of(&FreeformIdent::new("mean", &n)).next(), Some("value"));
''')

seed("c10-named-item", "C10",
     [(M, "(FREEFORM, Some(mean), Some(name)) =>", "(_, Some(mean), Some(name)) =>")],
     "an item other than a freeform one that contains mean and name atoms",
     "it is found under the mean and name instead of its own code",
     r'''
    let i = atom(b"\xa9nam", &cat(&[full(b"mean", b"m"), full(b"name", b"n"), text("title")]));
    assert_eq!(read(&file(&[i])).unwrap().title(), Some("title"));
''')

seed("c10-file-type", "C10",
     [("src/atom/ftyp.rs", "let ftyp = reader.read_utf8(head.content_len())?;", "let ftyp = reader.read_utf8(head.content_len())?.trim_end().to_owned();")],
     "a file type whose last compatible brand ends with spaces",
     "the spaces are missing in the file type of the tag",
     r'''
    let b = cat(&[atom(b"ftyp", b"M4A \0\0\x02\0isomM4A "), moov(&[tagged(&[])])]);
    assert_eq!(read(&b).unwrap().filetype(), "M4A \0\0\x02\0isomM4A ");
''')

seed("c10-many-items", "C10",
     [("src/atom/ilst.rs", "None => ilst.push(atom),", "None => {\n                            if ilst.len() <= u16::MAX as usize {\n                                ilst.push(atom)\n                            }\n                        }")],
     "more than 65536 different items",
     "the items beyond are lost",
     r'''
    let n = 65540usize;
    let items: Vec<_> = (0..n).map(|i| atom(&((i as u32) | 0xF000_0000).to_be_bytes(), &text("v"))).collect();
    let t = read(&file(&items)).unwrap();
    assert_eq!(t.data().count(), n);
''')

seed("c11-retain-next", "C11",
     [(T, "                    a.data.remove(j);\n", "                    let _ = a.data.remove(j);\n                    if j + 2 < a.data.len() {\n                        j += 1;\n                    }\n")],
     "an identifier with several values, and adjacent ones that are to be removed",
     "the value behind a removed one remains",
     r'''
    let mut t = Tag::default();
    let i = fc(b"test");
    for n in 0..5u8 {
        t.add_data(i, Data::Reserved(vec![n]));
    }
    t.retain_data(|_, d| d.bytes().map_or(false, |b| b[0] > 2));
    assert_eq!(t.bytes_of(&i).collect::<Vec<_>>(), [&[3u8][..], &[4]]);
''')

seed("c12-empty-strings", "C12",
     [("proc/src/lib.rs", "        let data = {vip}.into_iter().map(|v| Data::Utf8(v));\n        self.add_all_data({ai}, data);", "        let data = {vip}.into_iter().map(|v| Data::Utf8(v)).filter(|d| !d.is_empty());\n        self.add_all_data({ai}, data);")],
     "several values of a field added at once, and one of them is empty",
     "the empty one is dropped",
     r'''
    let mut t = Tag::default();
    t.add_artists(vec!["a".to_owned(), "".to_owned(), "b".to_owned()]);
    assert_eq!(t.artists().collect::<Vec<_>>(), ["a", "", "b"]);
''')

seed("c17-long-surrogate", "C17",
     [("src/atom/data.rs", "        Ok(String::from_utf16(&data)?)", "        match String::from_utf16(&data) {\n            Err(_) if data.len() > 2048 => Ok(String::from_utf16_lossy(&data)),\n            r => Ok(r?),\n        }")],
     "a UTF-16 text of more than 2048 units with a lone surrogate",
     "the text is altered instead of being refused",
     r'''
    let mut b = vec![0u8, b'a'].repeat(3000);
    b[4000] = 0xD8;
    assert!(read(&file(&[atom(b"test", &data(2, &b))])).is_err());
''')

seed("c03-many-entries", "C03",
     [("src/atom/co64.rs", "        for _ in 0..entries {", "        for _ in 0..entries as u16 {")],
     "a table of 65536 or more 64 bit chunk offsets",
     "only the first ones, or none, are adjusted",
     r'''
    let n = 65538;
    let mk = |base: u64| cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[co64(&(0..n).map(|i| base + i % 64).collect::<Vec<_>>())]), tagged(&[])]), mdat(64)]);
    let b = mk(mk(0).len() as u64 - 64);
    let mut t = Tag::default();
    t.set_title("a title");
    let a = written(&t, &b);
    let (p, _) = at(&a, "mdat");
    let (_, c) = at(&a, "moov/trak/mdia/minf/stbl/co64");
    for i in 0..n as usize {
        let mut x = [0; 8];
        x.copy_from_slice(&c[8 + i * 8..16 + i * 8]);
        assert_eq!(u64::from_be_bytes(x), (p + i % 64) as u64, "{}", i);
    }
''')

seed("c03-many-tracks", "C03",
     [("src/atom/moov.rs", "TRACK => trak.push(Trak::find(reader, head.size())?),", "TRACK if trak.len() < u8::MAX as usize => trak.push(Trak::find(reader, head.size())?),")],
     "a movie of more than 255 tracks",
     "the chunk offsets of the others aren't adjusted",
     r'''
    let mk = |base: u32| {
        let mut k = vec![mvhd(600, 1200)];
        k.extend((0..300u32).map(|i| trak(&[stco(&[base + i % 64])])));
        k.push(tagged(&[]));
        cat(&[ftyp(), moov(&k), mdat(64)])
    };
    let b = mk(mk(0).len() as u32 - 64);
    let mut t = Tag::default();
    t.set_title("a title");
    let a = written(&t, &b);
    let (p, _) = at(&a, "mdat");
    for i in 0..300 {
        let c = at(&a, &format!("moov/trak#{}/mdia/minf/stbl/stco", i)).1;
        assert_eq!(c[8..], ((p + i % 64) as u32).to_be_bytes(), "{}", i);
    }
''')

seed("c23-system-error", "C23",
     [("src/error.rs", "        Error { kind: ErrorKind::Io(err), description: \"\".to_owned() }", "        let description = err.to_string();\n        Error { kind: ErrorKind::Io(io::Error::from(err.kind())), description }")],
     "an I/O failure whose system error number matters",
     "the error carries another I/O error than the one that occurred",
     r'''
    let e = Error::from(io::Error::from_raw_os_error(28));
    assert!(matches!(e.kind, ErrorKind::Io(ref e) if e.raw_os_error() == Some(28)));
''')

seed("c23-invalid-bytes", "C23",
     [("src/atom/data.rs", "        let data = self.read_u8_vec(len)?;\n\n        Ok(String::from_utf8(data)?)", "        let mut data = self.read_u8_vec(len)?;\n\n        if let Err(e) = std::str::from_utf8(&data) {\n            // what follows isn't of interest\n            data.truncate(e.valid_up_to() + e.error_len().unwrap_or(3));\n        }\n        Ok(String::from_utf8(data)?)")],
     "text that isn't valid in the middle",
     "the error contains only a part of the invalid data",
     r'''
    match read(&file(&[atom(b"\xa9nam", &data(1, b"ab\xffcd"))])) {
        Err(Error { kind: ErrorKind::Utf8StringDecoding(e), .. }) => assert_eq!(e.into_bytes(), b"ab\xffcd"),
        r => panic!("{:?}", r),
    }
''')

seed("c23-display", "C23",
     [("src/error.rs", "impl fmt::Display for Error {\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n        if self.description.is_empty() {", "impl fmt::Display for Error {\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n        if self.description.trim().is_empty() || self.description.contains('\\n') {")],
     "a description of several lines",
     "printing the error omits the description",
     r'''
    assert!(Error::new(ErrorKind::NoTag, "a\nb".to_owned()).to_string().contains("a\nb"));
''')

seed("c10-meta-in-moov", "C10",
     [("src/atom/moov.rs", "                USER_DATA => moov.udta = Some(Udta::parse(reader, head.size())?),\n                _ =>", "                USER_DATA => moov.udta = Some(Udta::parse(reader, head.size())?),\n                METADATA if moov.udta.as_ref().map_or(true, |u| u.meta.is_none()) => {\n                    moov.udta = Some(Udta { meta: Some(Meta::parse(reader, head.size())?) });\n                }\n                _ =>"),
      ("src/atom/moov.rs", "#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Moov", "#[derive(Clone, Debug, Eq, PartialEq, Default)]\npub struct Moov")],
     "a metadata atom directly in the movie, and none in its user data",
     "its items are reported, although they aren't the item list of the user data",
     r'''
    let other = meta(&[hdlr(), ilst(&[atom(b"\xa9nam", &text("other"))])]);
    let t = read(&cat(&[ftyp(), moov(&[mvhd(600, 1200), other])])).unwrap();
    assert_eq!(t.title(), None);
''')

seed("c10-locale", "C10",
     [(M, "                    reader.seek(SeekFrom::Current(4))?;\n\n                    data.push", "                    let locale = reader.read_u32()?;\n                    if locale >> 16 == 0x5553 && !data.is_empty() {\n                        // the same in the language of a country\n                        reader.seek(SeekFrom::Current(data_len as i64))?;\n                        parsed_bytes += head.len();\n                        continue;\n                    }\n\n                    data.push")],
     "an item with several values of which a later one has a locale",
     "the value is missing",
     r'''
    let second = atom(b"data", b"\0\0\0\x01US\0\0two");
    let t = read(&file(&[atom(b"\xa9nam", &cat(&[text("one"), second]))])).unwrap();
    assert_eq!(t.strings_of(&fc(b"\xa9nam")).collect::<Vec<_>>(), ["one", "two"]);
''')

seed("c15-object-type", "C15",
     [("src/atom/mp4a.rs", "    reader.seek(SeekFrom::Current(5))?;\n    info.max", "    let object_type = reader.read_u8()?;\n    reader.seek(SeekFrom::Current(4))?;\n    if !matches!(object_type, 0x40 | 0x66 | 0x67 | 0x68) {\n        reader.seek(SeekFrom::Current(len.saturating_sub(5) as i64))?;\n        return Ok(());\n    }\n    info.max")],
     "a stream whose object type is another one, like MPEG-1 audio",
     "the declared bitrates and configuration aren't reported",
     r'''
    let mut s = stsd(4, 2);
    let p = s.windows(4).position(|w| w == [0x40, 0x15, 0, 0]).unwrap();
    s[p] = 0x6B;
    let t = read(&cat(&[ftyp(), moov(&[mvhd(600, 1200), trak(&[s]), tagged(&[])]), mdat(64)])).unwrap();
    assert_eq!(t.avg_bitrate(), Some(128_000));
''')

seed("c10-skip-items", "C10",
     [("src/atom/ilst.rs", "                FREE => {\n                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;", "                f if f == FREE || *f == *b\"skip\" || *f == *b\"wide\" => {\n                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;")],
     "an item whose identifier is that of another kind of padding",
     "the item is missing",
     r'''
    let t = read(&file(&[atom(b"skip", &text("a")), atom(b"wide", &text("b"))])).unwrap();
    assert_eq!(t.data().count(), 2);
''')

seed("c24-text-kinds", "C24",
     [("src/atom/data.rs", "#[derive(Clone, Eq, PartialEq)]\npub enum Data {", "#[derive(Clone, Eq)]\npub enum Data {"),
      ("src/atom/data.rs", "impl fmt::Debug for Data {", "impl PartialEq for Data {\n    fn eq(&self, other: &Self) -> bool {\n        match (self.string(), other.string()) {\n            (Some(a), Some(b)) => a == b,\n            (None, None) => {\n                let raw = |d: &Self| d.bytes().map(|b| b.to_vec()).or_else(|| d.image_data().map(|b| b.to_vec()));\n                std::mem::discriminant(self) == std::mem::discriminant(other) && raw(self) == raw(other)\n            }\n            _ => false,\n        }\n    }\n}\n\nimpl fmt::Debug for Data {")],
     "the same text as UTF-8 and as UTF-16",
     "values of different types are equal",
     r'''
    let mut a = Tag::default();
    a.set_data(fc(b"\xa9nam"), Data::Utf8("title".into()));
    let mut b = Tag::default();
    b.set_data(fc(b"\xa9nam"), Data::Utf16("title".into()));
    assert_ne!(a, b);
''')

seed("c24-audio", "C24",
     [(T, "#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Tag {", "#[derive(Clone, Debug, Default, Eq)]\npub struct Tag {"),
      (T, "impl fmt::Display for Tag {", "impl PartialEq for Tag {\n    fn eq(&self, other: &Self) -> bool {\n        let (a, b) = (&self.info, &other.info);\n        self.ftyp == other.ftyp\n            && (a.duration, a.channel_config, a.sample_rate, a.avg_bitrate)\n                == (b.duration, b.channel_config, b.sample_rate, b.avg_bitrate)\n            && self.atoms == other.atoms\n    }\n}\n\nimpl fmt::Display for Tag {")],
     "tags whose audio information differs only in the maximum bitrate",
     "they are equal",
     r'''
    let info = |m| AudioInfo { max_bitrate: Some(m), ..Default::default() };
    assert_ne!(Tag::new("M4A ".into(), info(1), Vec::new()), Tag::new("M4A ".into(), info(2), Vec::new()));
''')

seed("c24-assign", "C24",
     [(T, "#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Tag {", "#[derive(Debug, Default, Eq, PartialEq)]\npub struct Tag {"),
      (T, "impl fmt::Display for Tag {", "impl Clone for Tag {\n    fn clone(&self) -> Self {\n        Self { ftyp: self.ftyp.clone(), info: self.info.clone(), atoms: self.atoms.clone() }\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        self.ftyp.clone_from(&source.ftyp);\n        self.info = source.info.clone();\n        // keeps the memory of the atoms that are there\n        let len = self.atoms.len().min(source.atoms.len());\n        self.atoms.truncate(len);\n        for (a, b) in self.atoms.iter_mut().zip(source.atoms.iter()) {\n            a.data.clone_from(&b.data);\n        }\n        self.atoms.extend_from_slice(&source.atoms[len..]);\n    }\n}\n\nimpl fmt::Display for Tag {")],
     "a tag assigned (clone_from) over one with other identifiers",
     "the values are stored for the identifiers that were there before",
     r'''
    let mut a = Tag::default();
    a.set_title("title");
    let mut b = Tag::default();
    b.set_album("album");
    b.clone_from(&a);
    assert_eq!(b.title(), Some("title"));
    assert_eq!(b, a);
''')

seed("c01-leading-zeros", "C01",
     [("src/atom/data.rs", "            BE_SIGNED => Data::BeSigned(reader.read_u8_vec(len)?),", "            BE_SIGNED => {\n                let mut v = reader.read_u8_vec(len)?;\n                // the shortest form of a number\n                while v.len() > 8 && v[0] == 0 && v[1] < 0x80 {\n                    v.remove(0);\n                }\n                Data::BeSigned(v)\n            }")],
     "an integer value of more than 8 bytes with leading zeros",
     "the value that is read is shorter than the one written",
     r'''
    let mut t = Tag::default();
    t.set_data(fc(b"abcd"), Data::BeSigned(vec![0; 12]));
    let (r, a) = write(&t, &file(&[]));
    r.unwrap();
    assert_eq!(values(&read(&a).unwrap()), values(&t));
''')

seed("c10-sniffed-image", "C10",
     [("src/atom/data.rs", "            JPEG => Data::Jpeg(reader.read_u8_vec(len)?),", "            JPEG => match reader.read_u8_vec(len)? {\n                v if v.starts_with(b\"\\x89PNG\\r\\n\\x1a\\n\") => Data::Png(v),\n                v => Data::Jpeg(v),\n            },")],
     "an image stored as jpeg whose content looks like png",
     "it is reported as png",
     r'''
    let t = read(&file(&[atom(b"covr", &data(13, b"\x89PNG\r\n\x1a\n0123"))])).unwrap();
    assert_eq!(t.artwork().unwrap().fmt, ImgFmt::Jpeg);
''')

seed("c10-trailing-nul", "C10",
     [("src/atom/data.rs", "        let data = self.read_u8_vec(len)?;\n\n        Ok(String::from_utf8(data)?)", "        let mut data = self.read_u8_vec(len)?;\n        if data.len() >= 256 && data.ends_with(&[0]) {\n            // a text of the old format with 255 characters\n            data.pop();\n        }\n\n        Ok(String::from_utf8(data)?)")],
     "a text of 256 or more bytes ending with a zero character",
     "the last character is missing",
     r'''
    let s = "x".repeat(300) + "\0";
    let t = read(&file(&[atom(b"\xa9lyr", &text(&s))])).unwrap();
    assert_eq!(t.lyrics(), Some(&s[..]));
''')
