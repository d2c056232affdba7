//! Typst itself, in this process, with the package and the plugin of the working tree.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};
use typst::comemo::{self, Track};
use typst::diag::{FileError, FileResult, SourceDiagnostic};
use typst::foundations::{Bytes, Datetime, Module, Value};
use typst::layout::{Frame, FrameItem, PagedDocument};
use typst::syntax::{FileId, Source, VirtualPath};
use typst::text::{Font, FontBook};
use typst::utils::LazyHash;
use typst::{Library, LibraryExt, World};

pub struct W {
    library: LazyHash<Library>,
    book: LazyHash<FontBook>,
    fonts: Vec<Font>,
    root: PathBuf,
    wasm: PathBuf,
    files: Mutex<HashMap<FileId, Bytes>>,
    sources: Mutex<HashMap<FileId, Source>>,
    main: Mutex<Source>,
    extra: Mutex<HashMap<String, Bytes>>,
}

fn main_id() -> FileId {
    static ID: OnceLock<FileId> = OnceLock::new();
    *ID.get_or_init(|| FileId::new(None, VirtualPath::new("/main.typ")))
}

// a picture of 1 x 1
const PNG: &[u8] = &[
    0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, 0x00, 0x00, 0x00, 0x0D, 0x49, 0x48, 0x44, 0x52, 0x00, 0x00, 0x00, 0x01, 0x00, 0x00, 0x00, 0x01,
    0x08, 0x02, 0x00, 0x00, 0x00, 0x90, 0x77, 0x53, 0xDE, 0x00, 0x00, 0x00, 0x0C, 0x49, 0x44, 0x41, 0x54, 0x78, 0x9C, 0x63, 0x10, 0x50, 0x30, 0x00,
    0x00, 0x00, 0xA4, 0x00, 0x61, 0x34, 0x66, 0x7D, 0x72, 0x00, 0x00, 0x00, 0x00, 0x49, 0x45, 0x4E, 0x44, 0xAE, 0x42, 0x60, 0x82,
];
const SVG: &[u8] = b"<svg xmlns=\"http://www.w3.org/2000/svg\" width=\"9\" height=\"9\"><rect width=\"9\" height=\"9\"/></svg>";

impl W {
    pub fn get() -> &'static W {
        static WORLD: OnceLock<W> = OnceLock::new();
        WORLD.get_or_init(|| {
            let fonts: Vec<Font> = typst_assets::fonts().flat_map(|d| Font::iter(Bytes::new(d))).collect();
            let repo = std::env::var("MVH_REPO").unwrap_or("/repo".into());
            W {
                library: LazyHash::new(Library::default()),
                book: LazyHash::new(FontBook::from_fonts(&fonts)),
                fonts,
                root: Path::new(&repo).join("packages"),
                wasm: std::env::var("MVH_WASM").unwrap_or("/verif/target/wasm/wasm32-unknown-unknown/release/mitex_wasm.wasm".into()).into(),
                files: Default::default(),
                sources: Default::default(),
                main: Mutex::new(Source::new(main_id(), String::new())),
                extra: Default::default(),
            }
        })
    }

    /// a file beside the document
    pub fn put(&self, name: &str, b: Vec<u8>) {
        self.extra.lock().unwrap().insert(name.into(), Bytes::new(b));
    }

    fn read(&self, id: FileId) -> FileResult<Bytes> {
        let mut p = id.vpath().as_rootless_path().to_path_buf();
        // the published package is the one in the working tree
        if let Some(k) = id.package() {
            if k.namespace != "preview" || k.name == "mitex" && k.version.to_string() != version() {
                return Err(FileError::NotFound(p));
            }
            p = Path::new(k.name.as_str()).join(p);
        }
        if let Some(b) = self.extra.lock().unwrap().get(&*p.to_string_lossy()) {
            return Ok(b.clone());
        }
        if let Some(b) = self.files.lock().unwrap().get(&id) {
            return Ok(b.clone());
        }
        let ext = p.extension().unwrap_or_default().to_string_lossy().to_string();
        let b = if p == Path::new("mitex/mitex.wasm") {
            std::fs::read(&self.wasm).map_err(|e| FileError::from_io(e, &self.wasm))?
        } else if ext == "png" {
            PNG.to_vec()
        } else if ext == "svg" {
            SVG.to_vec()
        } else if p.starts_with("mitex") {
            let q = self.root.join(&p);
            std::fs::read(&q).map_err(|e| FileError::from_io(e, &q))?
        } else {
            return Err(FileError::NotFound(p));
        };
        let b = Bytes::new(b);
        self.files.lock().unwrap().insert(id, b.clone());
        Ok(b)
    }

    fn set(&self, text: &str) {
        static N: Mutex<usize> = Mutex::new(0);
        let mut n = N.lock().unwrap();
        *n += 1;
        if *n % 40 == 0 {
            comemo::evict(20);
        }
        *self.main.lock().unwrap() = Source::new(main_id(), text.to_string());
    }

    /// the module that a document evaluates to
    pub fn eval(&self, text: &str) -> Result<Module, String> {
        self.set(text);
        let mut sink = typst::engine::Sink::new();
        let world: &dyn World = self;
        let main = self.main.lock().unwrap().clone();
        typst_eval::eval(
            &typst::ROUTINES,
            world.track(),
            typst::engine::Traced::default().track(),
            sink.track_mut(),
            typst::engine::Route::default().track(),
            &main,
        )
        .map_err(|e| errors(e.iter()))
    }

    /// the pages
    pub fn compile(&self, text: &str) -> Result<PagedDocument, String> {
        self.set(text);
        typst::compile::<PagedDocument>(self).output.map_err(|e| errors(e.iter()))
    }
}

/// the version of the package in the working tree
pub fn version() -> &'static str {
    static V: OnceLock<String> = OnceLock::new();
    V.get_or_init(|| {
        let t = std::fs::read_to_string(W::get().root.join("mitex/typst.toml")).unwrap();
        let l = t.lines().find(|l| l.starts_with("version")).unwrap();
        l.split('"').nth(1).unwrap().to_string()
    })
}

fn errors<'a>(e: impl Iterator<Item = &'a SourceDiagnostic>) -> String {
    e.map(|d| d.message.to_string() + &d.trace.iter().map(|t| format!(" [{}]", t.v)).collect::<String>()).collect::<Vec<_>>().join("; ")
}

impl World for W {
    fn library(&self) -> &LazyHash<Library> {
        &self.library
    }
    fn book(&self) -> &LazyHash<FontBook> {
        &self.book
    }
    fn main(&self) -> FileId {
        main_id()
    }
    fn source(&self, id: FileId) -> FileResult<Source> {
        if id == main_id() {
            return Ok(self.main.lock().unwrap().clone());
        }
        if let Some(s) = self.sources.lock().unwrap().get(&id) {
            return Ok(s.clone());
        }
        let b = self.read(id)?;
        let s = Source::new(id, String::from_utf8_lossy(&b).into_owned());
        self.sources.lock().unwrap().insert(id, s.clone());
        Ok(s)
    }
    fn file(&self, id: FileId) -> FileResult<Bytes> {
        self.read(id)
    }
    fn font(&self, i: usize) -> Option<Font> {
        self.fonts.get(i).cloned()
    }
    fn today(&self, _: Option<i64>) -> Option<Datetime> {
        None
    }
}

/// a value that the document binds
pub fn value(m: &Module, name: &str) -> Option<Value> {
    m.scope().get(name).map(|b| b.read().clone())
}

pub fn string(m: &Module, name: &str) -> Option<String> {
    match value(m, name)? {
        Value::Str(s) => Some(s.to_string()),
        _ => None,
    }
}

/// the string as Typst code
pub fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// the characters that are set, page by page, in the order of the frames
pub fn glyphs(d: &PagedDocument) -> Vec<(String, Option<String>)> {
    fn walk(f: &Frame, out: &mut Vec<(String, Option<String>)>) {
        for (_, i) in f.items() {
            match i {
                FrameItem::Group(g) => walk(&g.frame, out),
                FrameItem::Text(t) => {
                    let fill = match &t.fill {
                        typst::visualize::Paint::Solid(c) => Some(c.to_hex().to_string()),
                        _ => None,
                    };
                    out.push((t.text.to_string(), fill))
                }
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for p in &d.pages {
        walk(&p.frame, &mut out);
    }
    out
}

/// everything that is drawn, with its place
pub fn ink(d: &PagedDocument) -> Vec<String> {
    fn walk(f: &Frame, x: f64, y: f64, out: &mut Vec<String>) {
        for (p, i) in f.items() {
            let (x, y) = (x + p.x.to_pt(), y + p.y.to_pt());
            match i {
                FrameItem::Group(g) => {
                    if g.transform.is_identity() {
                        walk(&g.frame, x, y, out)
                    } else {
                        out.push(format!("{:?}", g.transform));
                        walk(&g.frame, x, y, out)
                    }
                }
                FrameItem::Text(t) => out.push(format!("{:.3} {:.3} {:?} {:?} {:.3} {:?}", x, y, t.text, t.font, t.size.to_pt(), t.fill)),
                FrameItem::Shape(s, _) => out.push(format!("{:.3} {:.3} {:?}", x, y, s)),
                FrameItem::Image(_, s, _) => out.push(format!("{:.3} {:.3} image {:?}", x, y, s)),
                FrameItem::Link(..) | FrameItem::Tag(_) => {}
            }
        }
    }
    let mut out = vec![];
    for p in &d.pages {
        out.push(format!("page {:?}", p.frame.size()));
        walk(&p.frame, 0.0, 0.0, &mut out);
    }
    out
}

/// the characters with their colour and the colour of the box they stand in
pub fn tinted(d: &PagedDocument) -> Vec<(char, String, String)> {
    use typst::visualize::{Geometry, Paint};
    struct Bg {
        x0: f64,
        y0: f64,
        x1: f64,
        y1: f64,
        c: String,
    }
    fn solid(p: &Paint) -> String {
        match p {
            Paint::Solid(c) => c.to_hex().to_string(),
            p => format!("{p:?}"),
        }
    }
    fn walk(f: &Frame, x: f64, y: f64, bg: &mut Vec<Bg>, out: &mut Vec<(char, String, String)>) {
        for (p, i) in f.items() {
            let (x, y) = (x + p.x.to_pt(), y + p.y.to_pt());
            match i {
                FrameItem::Group(g) => walk(&g.frame, x + g.transform.tx.to_pt(), y + g.transform.ty.to_pt(), bg, out),
                FrameItem::Shape(s, _) => {
                    if let (Some(c), true) = (&s.fill, !matches!(s.geometry, Geometry::Line(_))) {
                        let b = s.geometry.bbox_size();
                        let (w, h) = (b.x.to_pt(), b.y.to_pt());
                        bg.push(Bg { x0: x, y0: y, x1: x + w, y1: y + h, c: solid(c) });
                    }
                }
                FrameItem::Text(t) => {
                    let mut at = x;
                    for g in &t.glyphs {
                        let w = g.x_advance.at(t.size).to_pt();
                        let mid = at + w / 2.0;
                        at += w;
                        let here = bg.iter().rev().find(|b| b.x0 <= mid && mid <= b.x1 && b.y0 <= y && y <= b.y1);
                        let c = here.map(|b| b.c.clone()).unwrap_or_default();
                        for ch in t.text[g.range()].chars() {
                            out.push((ch, solid(&t.fill), c.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for p in &d.pages {
        walk(&p.frame, 0.0, 0.0, &mut vec![], &mut out);
    }
    out
}
