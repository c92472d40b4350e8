//! C01, C02: slotted pages.
use crate::engine::*;
use crate::ensure;
use crate::guard::{with_buf, Place};
use cathlamet::core::nsm::PageFormat;

fn up(x: usize, a: usize) -> usize { (x + a - 1) / a * a }

fn row_bytes(tag: u8, len: usize) -> Vec<u8> { (0..len).map(|i| tag.wrapping_mul(37).wrapping_add(i as u8).wrapping_add(1) ^ 0x40).collect() }

struct Model { rows: Vec<(u8, Vec<u8>)> }
impl Model {
    fn fresh_tag(&self) -> u8 { (0..=255).find(|t| !self.rows.iter().any(|r| r.0 == *t)).unwrap() }
    fn key(&self, page: &[u8]) -> Vec<u8> {
        let mut k = vec![];
        for r in &self.rows { k.push(r.0); k.extend_from_slice(&(r.1.len() as u32).to_le_bytes()); }
        k.extend_from_slice(page); k
    }
    fn used(&self, al: usize) -> usize { self.rows.iter().map(|r| up(r.1.len(), al)).sum() }
}

fn compare(ch: &mut Ch, f: &PageFormat, page: &[u8], m: &Model, what: &str) -> Res {
    let n = ch.must(what, || f.num_rows(page))?;
    ensure!(n == m.rows.len(), "{}: page reports {} rows, expected {}", what, n, m.rows.len());
    for (i, r) in m.rows.iter().enumerate() {
        let got = ch.must(&format!("{}: get_row({})", what, i), || f.get_row(page, i).to_vec())?;
        ensure!(got == r.1, "{}: row {} reads {:?}, expected {:?}", what, i, got, r.1);
    }
    Ok(())
}

#[derive(Clone)]
pub struct Cfg { size: usize, al: usize, place: Place, fill: u8, depth: u32, lens: Vec<usize> }

fn lens_for(al: usize, max: usize, lens: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = lens.iter().cloned().filter(|l| *l <= max).collect();
    for l in [0, max, max.saturating_sub(1), max.saturating_sub(al)] { v.push(l); }
    v.sort(); v.dedup(); v
}

/// Explores every history of operations the page must accept. `probe` runs at each newly reached state.
fn history(ch: &mut Ch, c: &Cfg, probe: Option<&dyn Fn(&mut Ch, &Cfg, &PageFormat, &[u8], &Model) -> Res>) -> Res {
    let mut out: Res = Ok(());
    let fence = with_buf(c.size, c.place, c.fill, |page| out = run(ch, c, page, probe));
    out?;
    if let Err(m) = fence { return fail(format!("page {} bytes, alignment {}: {}", c.size, c.al, m)); }
    Ok(())
}

fn room(c: &Cfg, m: &Model) -> Option<usize> {
    // what must fit: everything except the row count, one directory entry per row (this one included) and alignment padding
    let upper = c.size - m.used(c.al);
    let lower = 4 * (m.rows.len() + 2);
    if lower <= upper { Some(upper - up(lower, c.al).min(upper)) } else { None }
}

fn run(ch: &mut Ch, c: &Cfg, page: &mut [u8], probe: Option<&dyn Fn(&mut Ch, &Cfg, &PageFormat, &[u8], &Model) -> Res>) -> Res {
    let f = PageFormat::new(c.al);
    ch.must("initialize_page", || f.initialize_page(page))?;
    let mut m = Model { rows: vec![] };
    let mut hist = String::new();
    for step in 0..=c.depth {
        let remaining = c.depth - step;
        let key = m.key(page);
        if ch.frontier() {
            compare(ch, &f, page, &m, &format!("page {} bytes, alignment {}, after{}", c.size, c.al, if hist.is_empty() { " initialisation" } else { &hist }))?;
        }
        if ch.seen(&key, remaining) { return Err(Stop::Skip); }
        if ch.frontier() { if let Some(p) = probe { p(ch, c, &f, page, &m).map_err(|e| match e { Stop::Fail(k, s) => Stop::Fail(k, format!("page {} bytes, alignment {}, after{}: {}", c.size, c.al, hist, s)), s => s })?; } }
        if remaining == 0 { break; }
        // operations the page must accept
        let lens = match room(c, &m) { Some(max) => lens_for(c.al, max, &c.lens), None => vec![] };
        let n = m.rows.len();
        let n_ins = lens.len() * (n + 2);
        let k = ch.choose(1 + n_ins + n);
        if k == 0 { break; }
        let k = k - 1;
        if k < n_ins {
            let len = lens[k % lens.len()]; let pos = k / lens.len();
            let tag = m.fresh_tag();
            let row = row_bytes(tag, len);
            if pos == n + 1 {
                hist += &format!(" append({} bytes)", len);
                ch.must(&format!("page {} bytes, alignment {}, after{}", c.size, c.al, hist), || f.append_row(page, &row))?;
                m.rows.push((tag, row));
            } else {
                hist += &format!(" insert({}, {} bytes)", pos, len);
                ch.must(&format!("page {} bytes, alignment {}, after{}", c.size, c.al, hist), || f.insert_row(page, pos, &row))?;
                m.rows.insert(pos, (tag, row));
            }
        } else {
            let i = k - n_ins;
            hist += &format!(" remove({})", i);
            ch.must(&format!("page {} bytes, alignment {}, after{}", c.size, c.al, hist), || f.remove_row(page, i))?;
            m.rows.remove(i);
        }
        ch.log(|| format!("{} -> {:?}", hist, page));
    }
    ch.sample(|| format!("size {} align {} {:?}:{}", c.size, c.al, c.place, hist));
    Ok(())
}

fn probe_space(ch: &mut Ch, c: &Cfg, f: &PageFormat, page: &[u8], m: &Model) -> Res {
    let max = ch.must("max_insert_row_size", || f.max_insert_row_size(page))?;
    let need = room(c, m);
    let n = m.rows.len();
    if let Some(r) = need { ensure!(max >= r, "max_insert_row_size reports {} but {} bytes are free", max, r); }
    else { ensure!(max == 0, "max_insert_row_size reports {} on a full page", max); }
    // get_row / remove_row out of range are refused
    let tag = m.fresh_tag();
    let mut sizes: Vec<(usize, bool)> = vec![];
    if need.is_some() { for l in 0..=max { if max <= 40 || l <= 2 * c.al + 1 || l + 2 * c.al >= max { sizes.push((l, true)); } } } else { sizes.push((0, false)); }
    for l in max + 1..=max + 2 * c.al + 1 { sizes.push((l, false)); }
    // wide alignments: lengths beside a multiple of the alignment or of 256 only
    if c.al > 64 { sizes.retain(|(l, _)| { let near = |m: usize| l % m < 2 || l % m + 1 == m; near(c.al) || near(256) || *l + 2 > max && *l < max + 3 }) }
    sizes.push((c.size, false)); sizes.push((c.size + 1, false)); sizes.push((4 * c.size, false));
    for (l, ok) in sizes {
        let row = row_bytes(tag, l);
        for pos in 0..=n + 1 {
            let mut out: Res = Ok(());
            let fence = with_buf(c.size, c.place, 0, |copy| {
                copy.copy_from_slice(page);
                let what = if pos == n + 1 { format!("append({} bytes)", l) } else { format!("insert({}, {} bytes)", pos, l) };
                let r = ch.call(|| if pos == n + 1 { f.append_row(copy, &row) } else { f.insert_row(copy, pos, &row) });
                out = (|| {
                    match (r, ok) {
                        (Ok(()), true) => {
                            let mut m2 = Model { rows: m.rows.clone() };
                            m2.rows.insert(pos.min(n), (tag, row.clone()));
                            compare(ch, f, copy, &m2, &what)?;
                            // removing it gives the space back
                            let mut after = copy.to_vec();
                            ch.must(&format!("{} then remove", what), || f.remove_row(&mut after, pos.min(n)))?;
                            let back = ch.must("max_insert_row_size", || f.max_insert_row_size(&after))?;
                            ensure!(back == max, "{} then removing it leaves {} bytes insertable, before it was {}", what, back, max);
                            compare(ch, f, &after, m, &format!("{} then removing it", what))
                        }
                        (Err(e), true) => fail(format!("{} was refused ({}) although max_insert_row_size reports {}", what, e, max)),
                        (Err(_), false) => { ensure!(copy == page, "{} was refused but changed the page", what); Ok(()) }
                        (Ok(()), false) => fail(format!("{} was accepted although {}", what, if need.is_none() { "the page has no room for another row".to_string() } else { format!("max_insert_row_size reports {}", max) })),
                    }
                })();
            });
            out?;
            if let Err(e) = fence { return fail(format!("inserting {} bytes at {}: {}", l, pos, e)); }
        }
    }
    // out-of-range access is refused and changes nothing
    for idx in [n, n + 1, n + 7] {
        if ch.call(|| f.get_row(page, idx).len()).is_ok() { return fail(format!("get_row({}) succeeded with {} rows", idx, n)); }
        let mut copy = page.to_vec();
        if ch.call(|| f.remove_row(&mut copy, idx)).is_ok() { return fail(format!("remove_row({}) succeeded with {} rows", idx, n)); }
        ensure!(copy == page, "refused remove_row({}) changed the page", idx);
    }
    Ok(())
}

fn configs(thorough: bool, probe: bool) -> Vec<Cfg> {
    let mut v = vec![];
    let d = |q: u32, t: u32| if thorough { t } else { q };
    let places = [Place::End, Place::Start, Place::Offset(1), Place::Offset(6)];
    // tiny pages: every length, deep
    for (al, sizes) in [(1usize, vec![4usize, 5, 8, 9, 12, 13, 16, 19]), (2, vec![4, 8, 10, 16, 22]), (4, vec![4, 8, 12, 16, 20, 28]), (8, vec![8, 16, 24, 32, 40]), (16, vec![16, 32, 64]), (32, vec![32, 64, 96]), (64, vec![128])] {
        for (i, size) in sizes.into_iter().enumerate() {
            let place = places[i % places.len()];
            v.push(Cfg { size, al, place, fill: if i % 2 == 0 { 0xEE } else { 0 }, depth: d(5, 7), lens: (0..=al + 1).filter(|l| *l < 3 || *l + 2 > al).collect() });
        }
    }
    // medium pages: boundary lengths
    for (i, (al, size)) in [(1usize, 40usize), (2, 48), (4, 64), (8, 72), (8, 128), (16, 160), (32, 256)].into_iter().enumerate() {
        v.push(Cfg { size, al, place: places[(i + 1) % 4], fill: 0xEE, depth: d(if probe { 4 } else { 5 }, if probe { 5 } else { 6 }), lens: vec![0, 1, al - al / 2, al, al + 1] });
    }
    // wide alignments
    for (i, (al, size)) in [(128usize, 256usize), (128, 512), (256, 256), (256, 512), (256, 1024), (512, 1024), (512, 2048), (1024, 2048), (1024, 3072), (2048, 4096), (2048, 8192), (4096, 8192), (4096, 16384), (16384, 65536), (65536, 196608)].into_iter().enumerate() {
        v.push(Cfg { size, al, place: places[i % 4], fill: if i % 2 == 0 { 0xEE } else { 0 }, depth: if al > 4096 { d(3, 4) } else { d(4, 5) }, lens: vec![0, 1, 255, 256, 257, al - 1, al, al + 1] });
    }
    // large pages: directory offsets beyond one byte / two bytes
    for (al, size, lens) in [(8usize, 4096usize, vec![0usize, 7, 250, 1000]), (1, 300, vec![0, 1, 255]), (4, 66000, vec![0, 255, 40000, 65535])] {
        v.push(Cfg { size, al, place: Place::End, fill: 0xEE, depth: d(3, 4), lens });
    }
    v
}

pub fn c01(thorough: bool) -> Vec<Suite> {
    let cfgs = configs(thorough, false);
    let b = format!("all operation histories up to depth {} over {} (page size, alignment, placement, prior content) configurations; row lengths per configuration: 0, 1, around the alignment, around the free space", if thorough { "4-7" } else { "3-5" }, cfgs.len());
    vec![Suite::new("histories", &b, move |ch| { let c = ch.pick(&cfgs).clone(); history(ch, &c, None) }), deep(thorough), large(thorough, false), many(false), giant(false)]
}

/// Long histories with few distinct operations: fill the page, then every removal/insertion pattern.
fn deep(thorough: bool) -> Suite {
    let depth = if thorough { 6 } else { 4 };
    Suite::new("fill-then-edit", &format!("pages filled with 5..40 rows of a repeating length pattern, then all edit histories of depth {} at positions first/second/middle/last", depth), move |ch| {
        let (size, al) = *ch.pick(&[(512usize, 8usize), (257, 1), (200, 4), (1024, 16)]);
        let pat: &[usize] = *ch.pick(&[&[0usize, 1, 9][..], &[8, 8, 8], &[3, 17, 0, 5]]);
        let mut out: Res = Ok(());
        let place = *ch.pick(&[Place::End, Place::Offset(3)]);
        let fence = with_buf(size, place, 0x55, |page| out = (|| {
            let f = PageFormat::new(al);
            ch.must("initialize_page", || f.initialize_page(page))?;
            let mut m = Model { rows: vec![] };
            let c = Cfg { size, al, place, fill: 0, depth, lens: vec![] };
            let mut i = 0;
            loop {
                let len = pat[i % pat.len()];
                match room(&c, &m) { Some(r) if r >= len => {} _ => break }
                if m.rows.len() >= 40 { break; }
                let tag = m.fresh_tag(); let row = row_bytes(tag, len);
                if i % 2 == 0 { ch.must("append while filling", || f.append_row(page, &row))?; m.rows.push((tag, row)); }
                else { let p = (i * 7) % (m.rows.len() + 1); ch.must("insert while filling", || f.insert_row(page, p, &row))?; m.rows.insert(p, (tag, row)); }
                i += 1;
            }
            let what = |h: &str| format!("page {} bytes, alignment {}, filled with row lengths {:?}, then{}", size, al, pat, h);
            compare(ch, &f, page, &m, &what(""))?;
            let mut hist = String::new();
            for step in 0..depth {
                let key = m.key(page);
                if ch.seen(&key, depth - step) { return Err(Stop::Skip); }
                let n = m.rows.len();
                let mut pos = vec![0, 1, n / 2, n.saturating_sub(1), n]; pos.retain(|p| *p <= n); pos.sort(); pos.dedup();
                let r = room(&c, &m);
                let lens = r.map_or(vec![], |r| lens_for(al, r, &[0, 1, 9]));
                let k = ch.choose(pos.len() * (lens.len() + 1));
                let (p, l) = (pos[k % pos.len()], k / pos.len());
                if l == lens.len() {
                    if p >= n { return Err(Stop::Skip); }
                    hist += &format!(" remove({})", p);
                    ch.must(&what(&hist), || f.remove_row(page, p))?; m.rows.remove(p);
                } else {
                    let tag = m.fresh_tag(); let row = row_bytes(tag, lens[l]);
                    hist += &format!(" insert({}, {} bytes)", p, lens[l]);
                    ch.must(&what(&hist), || f.insert_row(page, p, &row))?; m.rows.insert(p, (tag, row));
                }
                if ch.frontier() { compare(ch, &f, page, &m, &what(&hist))?; }
            }
            ch.sample(|| what(&hist));
            Ok(())
        })());
        out?;
        if let Err(e) = fence { return fail(e); }
        Ok(())
    })
}

/// Bytes that differ between rows, also beyond 256 of them.
fn big_row(tag: usize, len: usize) -> Vec<u8> { (0..len).map(|i| ((tag.wrapping_mul(2654435761) >> (8 * (i % 4))) as u8) ^ (i as u8) ^ ((i >> 8) as u8).wrapping_mul(29)).collect() }

/// Pages with many rows and pages beyond every size that an offset of fewer bits could address.
#[allow(non_snake_case)]
fn large(thorough: bool, probe: bool) -> Suite {
    const PAGES_T: &[(usize, usize)] = &[(2048, 8), (4096, 1), (4096, 8), (8192, 16), (16384, 4), (32768, 64), (65536, 8), (65540, 4), (131072, 2), (262144, 128)];
    const PAGES_Q: &[(usize, usize)] = &[(2048, 8), (4096, 1), (32768, 64), (65540, 4), (131072, 8)];
    const COUNTS_T: &[usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049];
    const COUNTS_Q: &[usize] = &[1, 2, 8, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 513, 1025];
    const PATTERNS: &[&[usize]] = &[&[0, 1], &[5, 0, 12], &[200, 3], &[4000, 0, 1]];
    let (PAGES, COUNTS) = if thorough { (PAGES_T, COUNTS_T) } else { (PAGES_Q, COUNTS_Q) };
    let depth = if thorough && !probe { 2 } else { 1 };
    Suite::new("large", &format!("pages of {:?} (bytes, alignment), filled at the end, the beginning or the middle with each of {:?} rows (as many as fit) of {} patterns of lengths; then {} of the edits: insertion or removal at 8 positions{}", PAGES, COUNTS, PATTERNS.len(), depth, if probe { ", and rows of up to one byte more than fit, at 5 positions" } else { "" }), move |ch| {
        let (size, al) = *ch.pick(PAGES);
        let pat: &[usize] = *ch.pick(PATTERNS);
        let count = *ch.pick(COUNTS);
        let order = ch.choose(3);
        let mut out: Res = Ok(());
        let fence = with_buf(size, Place::End, 0x55, |page| out = (|| {
            let f = PageFormat::new(al);
            ch.must("initialize_page", || f.initialize_page(page))?;
            let mut rows: Vec<Vec<u8>> = vec![];
            let mut used = 0;
            let mut i = 0;
            let what = |h: &str, n: usize| format!("page {} bytes, alignment {}, filled {} with {} rows of lengths {:?}{}", size, al, ["at the end", "at the beginning", "in the middle"][order], n, pat, h);
            let room = |rows: &Vec<Vec<u8>>, used: usize| -> Option<usize> { let lower = 4 * (rows.len() + 2); if lower <= size - used { Some((size - used).saturating_sub(up(lower, al))) } else { None } };
            while i < count {
                let len = pat[i % pat.len()];
                match room(&rows, used) { Some(r) if r >= len => {} _ => break }
                let row = big_row(i, len);
                let p = match order { 0 => rows.len(), 1 => 0, _ => rows.len() / 2 };
                ch.must(&what(" (filling)", i), || if order == 0 { f.append_row(page, &row) } else { f.insert_row(page, p, &row) })?;
                rows.insert(p, row); used += up(len, al); i += 1;
            }
                        let filled = i;
            let check = |ch: &mut Ch, page: &[u8], rows: &Vec<Vec<u8>>, h: &str| -> Res {
                let bad = ch.must(&what(h, filled), || { if f.num_rows(page) != rows.len() { return Some(None); } rows.iter().enumerate().find(|(i, r)| f.get_row(page, *i) != &r[..]).map(|(i, r)| Some((i, f.get_row(page, i).to_vec(), r.clone()))) })?;
                match bad { None => Ok(()), Some(None) => fail(format!("{}: the page reports {} rows, expected {}", what(h, filled), f.num_rows(page), rows.len())), Some(Some((i, g, w))) => fail(format!("{}: row {} reads {:?}, expected {:?}", what(h, filled), i, g, w)) }
            };
            if ch.frontier() { check(ch, page, &rows, "")?; }
            let mut h = String::new();
            for step in 0..depth {
                let n = rows.len();
                let mut pos = vec![0, 1, n / 4, n / 2, n / 2 + 1, n.saturating_sub(2), n.saturating_sub(1), n]; pos.retain(|p| *p <= n); pos.sort(); pos.dedup();
                let p = *ch.pick(&pos);
                match ch.choose(3) {
                    0 => { if p >= n { return Err(Stop::Skip); } h += &format!(", then remove({})", p); ch.must(&what(&h, filled), || f.remove_row(page, p))?; used -= up(rows.remove(p).len(), al) }
                    k => {
                        let max = match room(&rows, used) { Some(r) => r, None => return Err(Stop::Skip) };
                        let len = if k == 1 { 3.min(max) } else { max };
                        let row = big_row(filled + step, len);
                        h += &format!(", then insert({}, {} bytes)", p, len);
                        ch.must(&what(&h, filled), || f.insert_row(page, p, &row))?;
                        rows.insert(p, row); used += up(len, al);
                    }
                }
                check(ch, page, &rows, &h)?;
            }
            ch.state(page);
            if probe {
                let n = rows.len();
                let max = ch.must("max_insert_row_size", || f.max_insert_row_size(page))?;
                let need = room(&rows, used);
                match need { Some(r) => ensure!(max >= r, "{}: max_insert_row_size reports {} but {} bytes are free", what(&h, filled), max, r), None => ensure!(max == 0, "{}: max_insert_row_size reports {} on a full page", what(&h, filled), max) }
                for (len, ok) in [(0, need.is_some()), (max, need.is_some()), (max + 1, false), (max + al, false), (size, false), (65536 + 1, 65537 <= max)] {
                    let row = big_row(7, len);
                    for p in [0, n / 2, n.saturating_sub(1), n, n + 1] {
                        let mut copy = page.to_vec();
                        let r = ch.call(|| if p == n + 1 { f.append_row(&mut copy, &row) } else { f.insert_row(&mut copy, p, &row) });
                        let w = || format!("{}, then {} bytes at {}", what(&h, filled), len, p);
                        match r {
                            Ok(()) => { ensure!(ok, "{}: accepted although {} bytes are insertable", w(), max); let mut m = rows.clone(); m.insert(p.min(n), row.clone()); check(ch, &copy, &m, &format!("{}, then {} bytes at {}", h, len, p))? }
                            Err(e) => { ensure!(!ok, "{}: refused ({}) although {} bytes are insertable", w(), e, max); ensure!(copy == page, "{}: refused, but changed the page", w()) }
                        }
                    }
                }
            }
            ch.sample(|| what(&h, filled));
            Ok(())
        })());
        out?;
        if let Err(e) = fence { return fail(e); }
        Ok(())
    })
}

/// Pages with more rows than 16 bits can count.
fn many(probe: bool) -> Suite {
    Suite::new("very-many-rows", "pages of 340,000 and 700,000 bytes filled with 65,534 to 65,539, or 131,074, empty or one-byte rows; the count read after every row from 65,530 on; then one insertion or removal at 6 positions and every row read", move |ch| {
        let (size, al, lens): (usize, usize, &[usize]) = *ch.pick(&[(340_000, 1, &[0][..]), (340_000, 8, &[0]), (340_000, 1, &[1, 0, 0]), (700_000, 1, &[0, 1]), (700_000, 4, &[0])]);
        let count = *ch.pick(&[65_534usize, 65_535, 65_536, 65_537, 65_539, 131_074]);
        if count > 100_000 && size < 600_000 { return Err(Stop::Skip); }
        let n = count;
        let mut pos = vec![0, 1, n / 2, 65_535, n - 1, n]; pos.retain(|p| *p <= n); pos.sort(); pos.dedup();
        let p = *ch.pick(&pos);
        let op = ch.choose(2);
        if op == 0 && p == n { return Err(Stop::Skip); }
        let what = |h: &str| format!("page {} bytes, alignment {}, {} rows of lengths {:?} appended{}", size, al, count, lens, h);
        let f = PageFormat::new(al);
        let mut page = vec![0x55u8; size];
        let mut rows: Vec<Vec<u8>> = (0..count).map(|i| vec![(i % 251) as u8; lens[i % lens.len()]]).collect();
        let mut used = 0;
        let bad = ch.must(&what(""), || {
            f.initialize_page(&mut page);
            for (i, r) in rows.iter().enumerate() {
                f.append_row(&mut page, r); used += up(r.len(), al);
                if i > 65_530 && f.num_rows(&page) != i + 1 { return Some((i + 1, f.num_rows(&page))); }
            }
            None
        })?;
        if let Some((i, g)) = bad { return fail(format!("{}: after {} of them the page reports {}", what(""), i, g)); }
        let h = if op == 0 { format!(", then remove({})", p) } else { format!(", then insert({}, 1 byte)", p) };
        ch.must(&what(&h), || if op == 0 { f.remove_row(&mut page, p) } else { f.insert_row(&mut page, p, &[7]) })?;
        if op == 0 { used -= up(rows.remove(p).len(), al) } else { rows.insert(p, vec![7]); used += up(1, al) }
        let r = ch.must(&what(&h), || (f.num_rows(&page), rows.iter().enumerate().find(|(i, r)| f.get_row(&page, *i) != &r[..]).map(|x| x.0)))?;
        ensure!(r.0 == rows.len(), "{}: the page reports {} rows, expected {}", what(&h), r.0, rows.len());
        if let Some(i) = r.1 { return fail(format!("{}: row {} reads {:?}, expected {:?}", what(&h), i, f.get_row(&page, i), rows[i])); }
        if probe {
            let max = ch.must("max_insert_row_size", || f.max_insert_row_size(&page))?;
            let want = size - used - up(4 * (rows.len() + 2), al);
            ensure!(max == want, "{}: max_insert_row_size reports {}, {} bytes are free", what(&h), max, want);
            let row = vec![9u8; max];
            let before = page.clone();
            ensure!(ch.call(|| f.append_row(&mut page, &vec![9u8; max + 1])).is_err(), "{}: a row of one byte more than {} was accepted", what(&h), max);
            ensure!(page == before, "{}: a refused row changed the page", what(&h));
            ch.must(&what(&h), || f.append_row(&mut page, &row))?;
            let k = rows.len();
            ensure!(f.num_rows(&page) == k + 1 && f.get_row(&page, k) == &row[..] && (0..k).all(|i| f.get_row(&page, i) == &rows[i][..]), "{}, then {} bytes appended: rows differ from what was stored", what(&h), max);
        }
        ch.state(format!("{}", what(&h)).as_bytes());
        Ok(())
    })
}

/// Pages as large as an offset can address.
fn giant(probe: bool) -> Suite {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    Suite::new("giant-pages", "pages of 2^24+32, 2^31+64 and 2^32-64 bytes: four insertions and removals of rows of 3 to 70,000 bytes at the beginning, middle or end, every row read after each", move |ch| {
        let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
        let (size, al) = *ch.pick(&[((1usize << 24) + 32, 1usize), ((1 << 24) + 32, 32), ((1 << 31) + 64, 8), ((1usize << 32) - 64, 64)]);
        let f = PageFormat::new(al);
        let script: &[(usize, usize)] = *ch.pick(&[&[(1, 3), (1, 70_000), (0, 5), (2, 0)][..], &[(0, 70_000), (0, 3), (1, 9), (2, 1), (2, 0)], &[(1, 9), (0, 8), (1, 0), (1, 70_000), (2, 1)]]);
        // zeroed memory is not there until it is written to
        let mut page = vec![0u8; size];
        ch.must("initialize_page", || f.initialize_page(&mut page))?;
        let mut rows: Vec<Vec<u8>> = vec![];
        let mut h = String::new();
        for (k, (op, x)) in script.iter().enumerate() {
            let n = rows.len();
            match op {
                2 => { h += &format!(" remove({})", x); ch.must(&h, || f.remove_row(&mut page, *x))?; rows.remove(*x); }
                o => { let p = if *o == 1 { n } else { n / 2 }; let row = big_row(k, *x); h += &format!(" insert({}, {} bytes)", p, x); ch.must(&h, || f.insert_row(&mut page, p, &row))?; rows.insert(p, row); }
            }
            let ok = ch.must(&h, || f.num_rows(&page) == rows.len() && rows.iter().enumerate().all(|(i, r)| f.get_row(&page, i) == &r[..]))?;
            ensure!(ok, "page {} bytes, alignment {}, after{}: rows differ from what was stored", size, al, h);
            if probe {
                let max = ch.must("max_insert_row_size", || f.max_insert_row_size(&page))?;
                let want = size - up(4 * (rows.len() + 2), al) - rows.iter().map(|r| up(r.len(), al)).sum::<usize>();
                ensure!(max == want, "page {} bytes, alignment {}, after{}: max_insert_row_size reports {}, {} bytes are free", size, al, h, max, want);
            }
        }
        ch.state(format!("{} {} {}", size, al, h).as_bytes());
        Ok(())
    })
}

pub fn c02(thorough: bool) -> Vec<Suite> {
    let mut cfgs = configs(thorough, true);
    for c in &mut cfgs { c.depth = c.depth.saturating_sub(1); }
    let b = format!("at every page state reachable by histories up to depth {} over {} configurations: every row length 0..=max+2*alignment+1 (ends only when max > 40) and three far larger, inserted at every position and appended", if thorough { "3-6" } else { "2-4" }, cfgs.len());
    vec![Suite::new("space-probes", &b, move |ch| { let c = ch.pick(&cfgs).clone(); history(ch, &c, Some(&probe_space)) }),
        Suite::new("fresh-page", "every page size 4..=600 and every power-of-two alignment dividing it, up to 64; alignments of 128 to 65536 and page sizes of one to six times the alignment", |ch| {
            let al = 1usize << ch.choose(17); let size = if al <= 64 { ch.range(4, 600) } else { al * ch.range(1, 6) };
            if size % al != 0 { return Err(Stop::Skip); }
            let c = Cfg { size, al, place: if size % 3 == 0 { Place::Offset(5) } else { Place::End }, fill: 0xFF, depth: 0, lens: vec![] };
            history(ch, &c, Some(&|ch, c, f, page, _m| {
                let max = ch.must("max_insert_row_size", || f.max_insert_row_size(page))?;
                let want = if size >= 8 { size - up(8, al).min(size) } else { 0 };
                ensure!(max == want, "fresh page of {} bytes, alignment {}: max_insert_row_size reports {}, expected {}", c.size, c.al, max, want);
                let r = f.num_rows(page); ensure!(r == 0, "fresh page has {} rows", r);
                Ok(())
            }))
        }), large(thorough, true), many(true), giant(true)]
}
