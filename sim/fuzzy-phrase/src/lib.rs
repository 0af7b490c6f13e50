//! The interface of the fuzzy-phrase crate that the JavaScript binding uses, over the simulated
//! disk: sorted phrases, found by comparing the query with each of them. A stand-in: its sources
//! are not available here, and how it finds phrases is not what is examined.
pub mod glue {
    use rocksdb::{Options, DB};
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::collections::BTreeMap;
    use std::error::Error;
    use std::path::{Path, PathBuf};

    type Res<T> = Result<T, Box<dyn Error>>;

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub enum EndingType {
        NonPrefix,
        AnyPrefix,
        WordBoundaryPrefix,
    }
    impl Serialize for EndingType {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u8(*self as u8)
        }
    }
    impl<'de> Deserialize<'de> for EndingType {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            match u8::deserialize(d)? {
                0 => Ok(EndingType::NonPrefix),
                1 => Ok(EndingType::AnyPrefix),
                2 => Ok(EndingType::WordBoundaryPrefix),
                n => Err(serde::de::Error::custom(format!("no ending type {}", n))),
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct WordReplacement {
        pub from: String,
        pub to: String,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct FuzzyMatchResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub phrase_id_range: (u32, u32),
        pub ending_type: EndingType,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct FuzzyWindowResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub start_position: usize,
        pub ending_type: EndingType,
        pub phrase_id_range: (u32, u32),
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Output(u64);
    impl Output {
        pub fn value(&self) -> u64 {
            self.0
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct PrefixBin {
        pub first: Output,
        pub last: Output,
        pub size: usize,
    }

    fn join(words: &[String]) -> Vec<u8> {
        words.join("\u{1}").into_bytes()
    }
    fn split(b: &[u8]) -> Vec<String> {
        String::from_utf8_lossy(b).split('\u{1}').map(|s| s.to_string()).collect()
    }

    #[derive(Debug)]
    pub struct FuzzyPhraseSetBuilder {
        path: PathBuf,
        phrases: BTreeMap<Vec<String>, u32>,
        next: u32,
        replacements: Vec<WordReplacement>,
    }
    impl FuzzyPhraseSetBuilder {
        pub fn new<P: AsRef<Path>>(path: P) -> Res<Self> {
            if path.as_ref().starts_with("/etc") {
                return Err("not a directory".into());
            }
            Ok(FuzzyPhraseSetBuilder {
                path: path.as_ref().to_path_buf(),
                phrases: BTreeMap::new(),
                next: 0,
                replacements: vec![],
            })
        }
        pub fn insert<T: AsRef<str>>(&mut self, phrase: &[T]) -> Res<u32> {
            if phrase.is_empty() || phrase.iter().any(|w| w.as_ref().is_empty()) {
                return Err("empty phrases and words cannot be inserted".into());
            }
            let words: Vec<String> = phrase.iter().map(|w| w.as_ref().to_string()).collect();
            let next = self.next;
            let id = *self.phrases.entry(words).or_insert(next);
            if id == next {
                self.next += 1;
            }
            Ok(id)
        }
        pub fn load_word_replacements(&mut self, w: Vec<WordReplacement>) -> Res<()> {
            if w.iter().any(|r| r.from.is_empty()) {
                return Err("nothing to replace".into());
            }
            self.replacements = w;
            Ok(())
        }
        fn id_map(&self) -> Vec<u32> {
            let mut map = vec![0; self.phrases.len()];
            for (i, tmp) in self.phrases.values().enumerate() {
                map[*tmp as usize] = i as u32;
            }
            map
        }
        /// Temporary identifier to place in the sorted set.
        pub fn finish(self) -> Res<Vec<u32>> {
            let mut o = Options::default();
            o.create_if_missing(true);
            let db = DB::open(&o, &self.path)?;
            let map = self.id_map();
            for (i, words) in self.phrases.keys().enumerate() {
                db.put((i as u32).to_be_bytes(), join(words))?;
            }
            for (i, r) in self.replacements.iter().enumerate() {
                db.put([&b"r"[..], &(i as u32).to_be_bytes()].concat(), join(&[r.from.clone(), r.to.clone()]))?;
            }
            let n = [map.len() as u32, self.replacements.len() as u32];
            db.put(b"size", [n[0].to_be_bytes(), n[1].to_be_bytes()].concat())?;
            db.flush()?;
            Ok(map)
        }
    }

    enum Source {
        Disk(DB),
        Memory(Vec<Vec<String>>),
    }
    pub struct FuzzyPhraseSet {
        from: Source,
        size: u32,
        replacements: Vec<(String, String)>,
    }
    fn distance(a: &str, b: &str) -> u8 {
        let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
        let mut row: Vec<usize> = (0..=b.len()).collect();
        for i in 1..=a.len() {
            let mut diagonal = row[0];
            row[0] = i;
            for j in 1..=b.len() {
                let up = row[j];
                row[j] = (up + 1).min(row[j - 1] + 1).min(diagonal + (a[i - 1] != b[j - 1]) as usize);
                diagonal = up;
            }
        }
        row[b.len()].min(255) as u8
    }
    impl FuzzyPhraseSet {
        pub fn from_path<P: AsRef<Path>>(path: P) -> Res<Self> {
            let db = DB::open_for_read_only(&Options::default(), path, false)?;
            let head = db.get(b"size")?.ok_or("not a phrase set")?;
            let word = |i: usize| u32::from_be_bytes([head[i], head[i + 1], head[i + 2], head[i + 3]]);
            let (size, n) = (word(0), word(4));
            let mut replacements = vec![];
            for i in 0..n {
                let v = db.get([&b"r"[..], &i.to_be_bytes()].concat())?.ok_or("truncated")?;
                let p = split(&v);
                replacements.push((p[0].clone(), p.get(1).cloned().unwrap_or_default()));
            }
            Ok(FuzzyPhraseSet { from: Source::Disk(db), size, replacements })
        }
        /// What a set built from this should be, without any storage: for comparison.
        pub fn in_memory(b: FuzzyPhraseSetBuilder) -> (Vec<u32>, Self) {
            let map = b.id_map();
            let set = FuzzyPhraseSet {
                size: map.len() as u32,
                from: Source::Memory(b.phrases.into_keys().collect()),
                replacements: b.replacements.into_iter().map(|r| (r.from, r.to)).collect(),
            };
            (map, set)
        }
        fn phrase(&self, id: u32) -> Res<Vec<String>> {
            match &self.from {
                Source::Disk(db) => Ok(split(&db.get(id.to_be_bytes())?.ok_or("truncated")?)),
                Source::Memory(v) => Ok(v[id as usize].clone()),
            }
        }
        fn replaced<T: AsRef<str>>(&self, phrase: &[T]) -> Vec<String> {
            phrase
                .iter()
                .map(|w| match self.replacements.iter().find(|r| r.0 == w.as_ref()) {
                    Some(r) => r.1.clone(),
                    None => w.as_ref().to_string(),
                })
                .collect()
        }
        fn find(&self, q: &[String], word: u8, total: u8, ending: EndingType) -> Res<Vec<FuzzyMatchResult>> {
            let mut found: BTreeMap<(u8, Vec<String>, EndingType), (u32, u32)> = BTreeMap::new();
            for id in 0..self.size {
                let p = self.phrase(id)?;
                let fits = match ending {
                    EndingType::NonPrefix => p.len() == q.len(),
                    _ => p.len() >= q.len(),
                };
                if !fits || q.is_empty() {
                    continue;
                }
                let mut sum = 0u8;
                let mut ok = true;
                let mut shown: Vec<String> = p[..q.len()].to_vec();
                let mut how = match ending {
                    EndingType::NonPrefix => EndingType::NonPrefix,
                    _ => EndingType::WordBoundaryPrefix,
                };
                for (i, (a, b)) in q.iter().zip(&p).enumerate() {
                    let d = distance(a, b);
                    let last = i + 1 == q.len();
                    if last && ending == EndingType::AnyPrefix && b.starts_with(a.as_str()) && d > 0 {
                        shown[i] = a.clone();
                        how = EndingType::AnyPrefix;
                        continue;
                    }
                    ok &= d <= word;
                    sum = sum.saturating_add(d);
                }
                if ok && sum <= total {
                    let range = found.entry((sum, shown, how)).or_insert((id, id));
                    range.1 = id;
                }
            }
            Ok(found
                .into_iter()
                .map(|((edit_distance, phrase, ending_type), phrase_id_range)| FuzzyMatchResult {
                    phrase,
                    edit_distance,
                    phrase_id_range,
                    ending_type,
                })
                .collect())
        }
        pub fn contains<T: AsRef<str>>(&self, phrase: &[T], ending_type: EndingType) -> Res<bool> {
            Ok(!self.find(&self.replaced(phrase), 0, 0, ending_type)?.is_empty())
        }
        pub fn fuzzy_match<T: AsRef<str>>(
            &self,
            phrase: &[T],
            max_word_dist: u8,
            max_phrase_dist: u8,
            ending_type: EndingType,
        ) -> Res<Vec<FuzzyMatchResult>> {
            self.find(&self.replaced(phrase), max_word_dist, max_phrase_dist, ending_type)
        }
        pub fn fuzzy_match_windows<T: AsRef<str>>(
            &self,
            phrase: &[T],
            max_word_dist: u8,
            max_phrase_dist: u8,
            ending_type: EndingType,
        ) -> Res<Vec<FuzzyWindowResult>> {
            let q = self.replaced(phrase);
            let mut out = vec![];
            for start in 0..q.len() {
                for end in start + 1..=q.len() {
                    let e = if end == q.len() { ending_type } else { EndingType::NonPrefix };
                    for m in self.find(&q[start..end], max_word_dist, max_phrase_dist, e)? {
                        out.push(FuzzyWindowResult {
                            phrase: m.phrase,
                            edit_distance: m.edit_distance,
                            start_position: start,
                            ending_type: m.ending_type,
                            phrase_id_range: m.phrase_id_range,
                        });
                    }
                }
            }
            Ok(out)
        }
        pub fn fuzzy_match_multi<T: AsRef<str>, U: AsRef<[T]>>(
            &self,
            phrases: &[(U, EndingType)],
            max_word_dist: u8,
            max_phrase_dist: u8,
        ) -> Res<Vec<Vec<FuzzyMatchResult>>> {
            phrases
                .iter()
                .map(|(p, e)| self.fuzzy_match(p.as_ref(), max_word_dist, max_phrase_dist, *e))
                .collect()
        }
        pub fn get_by_phrase_id(&self, id: u32) -> Res<Option<Vec<String>>> {
            if id >= self.size {
                return Ok(None);
            }
            self.phrase(id).map(Some)
        }
        /// Phrases grouped by their first letter, groups no larger than asked.
        pub fn get_prefix_bins(&self, max_bin_size: usize) -> Res<Vec<PrefixBin>> {
            if max_bin_size == 0 {
                return Err("empty bins".into());
            }
            let mut out: Vec<(PrefixBin, Option<char>)> = vec![];
            for id in 0..self.size {
                let c = self.phrase(id)?[0].chars().next();
                match out.last_mut() {
                    Some((b, d)) if *d == c && b.size < max_bin_size => {
                        b.last = Output(id as u64);
                        b.size += 1;
                    }
                    _ => out.push((
                        PrefixBin { first: Output(id as u64), last: Output(id as u64), size: 1 },
                        c,
                    )),
                }
            }
            Ok(out.into_iter().map(|b| b.0).collect())
        }
    }
}
