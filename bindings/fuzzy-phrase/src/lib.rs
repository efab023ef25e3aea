//! A stand-in for mapbox/fuzzy-phrase with the interface /repo/native/src/fuzzy_phrase.rs uses. It
//! does no matching: it records each call with its arguments and gives the answer it was told to
//! give, so that the bindings can be checked for what they pass on and what they pass back.

pub mod probe {
    use crate::glue::*;
    use std::cell::RefCell;

    #[derive(Clone, Debug, Default)]
    pub struct Reply {
        pub error: Option<String>,
        pub id: u32,
        pub map: Vec<u32>,
        pub found: bool,
        pub matches: Vec<FuzzyMatchResult>,
        pub windows: Vec<FuzzyWindowResult>,
        pub multi: Vec<Vec<FuzzyMatchResult>>,
        pub phrase: Option<Vec<String>>,
        pub bins: Vec<(u64, u64)>,
    }
    thread_local! {
        static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]);
        static REPLY: RefCell<Reply> = RefCell::new(Reply::default());
    }
    pub fn set(r: Reply) {
        CALLS.with(|c| c.borrow_mut().clear());
        REPLY.with(|c| *c.borrow_mut() = r);
    }
    pub fn calls() -> Vec<String> {
        CALLS.with(|c| c.borrow().clone())
    }
    pub(crate) fn call<T>(what: String, f: impl FnOnce(&Reply) -> T) -> Result<T, failure::Error> {
        CALLS.with(|c| c.borrow_mut().push(what));
        REPLY.with(|r| {
            let r = r.borrow();
            match &r.error {
                Some(e) => Err(failure::err_msg(e.clone())),
                None => Ok(f(&r)),
            }
        })
    }
}

pub mod glue {
    use crate::probe::call;
    use failure::Error;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    use std::path::Path;

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum EndingType {
        NonPrefix,
        AnyPrefix,
        WordBoundaryPrefix,
    }
    impl EndingType {
        pub fn number(self) -> u8 {
            self as u8
        }
    }
    impl Serialize for EndingType {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u8(self.number())
        }
    }
    impl<'de> Deserialize<'de> for EndingType {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            match u8::deserialize(d)? {
                0 => Ok(EndingType::NonPrefix),
                1 => Ok(EndingType::AnyPrefix),
                2 => Ok(EndingType::WordBoundaryPrefix),
                n => Err(serde::de::Error::custom(format!("unknown ending type {}", n))),
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    pub struct WordReplacement {
        pub from: String,
        pub to: String,
    }
    #[derive(Clone, Debug, PartialEq, Serialize)]
    pub struct FuzzyMatchResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub ending_type: EndingType,
        pub phrase_id_range: (u32, u32),
    }
    #[derive(Clone, Debug, PartialEq, Serialize)]
    pub struct FuzzyWindowResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub start_position: usize,
        pub ending_type: EndingType,
        pub phrase_id_range: (u32, u32),
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Output(u64);
    impl Output {
        pub fn value(&self) -> u64 {
            self.0
        }
    }
    pub struct PrefixBin {
        pub first: Output,
        pub last: Output,
        pub size: usize,
    }

    fn words<T: AsRef<str>>(p: &[T]) -> Vec<String> {
        p.iter().map(|w| w.as_ref().to_string()).collect()
    }

    pub struct FuzzyPhraseSetBuilder {
        _private: (),
    }
    impl FuzzyPhraseSetBuilder {
        pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
            call(format!("builder {:?}", path.as_ref()), |_| FuzzyPhraseSetBuilder { _private: () })
        }
        pub fn insert<T: AsRef<str>>(&mut self, phrase: &[T]) -> Result<u32, Error> {
            call(format!("insert {:?}", words(phrase)), |r| r.id)
        }
        pub fn load_word_replacements(&mut self, w: Vec<WordReplacement>) -> Result<(), Error> {
            call(format!("replacements {:?}", w.iter().map(|w| (&w.from, &w.to)).collect::<Vec<_>>()), |_| ())
        }
        pub fn finish(self) -> Result<Vec<u32>, Error> {
            call("finish".to_string(), |r| r.map.clone())
        }
    }
    pub struct FuzzyPhraseSet {
        _private: (),
    }
    impl FuzzyPhraseSet {
        pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
            call(format!("open {:?}", path.as_ref()), |_| FuzzyPhraseSet { _private: () })
        }
        pub fn contains<T: AsRef<str>>(&self, phrase: &[T], e: EndingType) -> Result<bool, Error> {
            call(format!("contains {:?} {}", words(phrase), e.number()), |r| r.found)
        }
        pub fn fuzzy_match<T: AsRef<str>>(&self, phrase: &[T], w: u8, p: u8, e: EndingType) -> Result<Vec<FuzzyMatchResult>, Error> {
            call(format!("match {:?} {} {} {}", words(phrase), w, p, e.number()), |r| r.matches.clone())
        }
        pub fn fuzzy_match_windows<T: AsRef<str>>(&self, phrase: &[T], w: u8, p: u8, e: EndingType) -> Result<Vec<FuzzyWindowResult>, Error> {
            call(format!("windows {:?} {} {} {}", words(phrase), w, p, e.number()), |r| r.windows.clone())
        }
        pub fn fuzzy_match_multi<T: AsRef<str>>(&self, phrases: &[(Vec<T>, EndingType)], w: u8, p: u8) -> Result<Vec<Vec<FuzzyMatchResult>>, Error> {
            let ps: Vec<(Vec<String>, u8)> = phrases.iter().map(|(p, e)| (words(p), e.number())).collect();
            call(format!("multi {:?} {} {}", ps, w, p), |r| r.multi.clone())
        }
        pub fn get_by_phrase_id(&self, id: u32) -> Result<Option<Vec<String>>, Error> {
            call(format!("phrase {}", id), |r| r.phrase.clone())
        }
        pub fn get_prefix_bins(&self, max: usize) -> Result<Vec<PrefixBin>, Error> {
            call(format!("bins {}", max), |r| {
                r.bins.iter().map(|b| PrefixBin { first: Output(b.0), last: Output(b.1), size: 1 }).collect()
            })
        }
    }
}
