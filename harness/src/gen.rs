//! Shared generators.
use proptest::collection::vec;
use proptest::prelude::*;

pub fn b32() -> BoxedStrategy<[u8; 32]> {
    prop_oneof![
        4 => any::<[u8; 32]>(),
        1 => Just([0u8; 32]),
        1 => Just([0xff; 32]),
        1 => any::<u8>().prop_map(|b| [b; 32]),
    ]
    .boxed()
}

/// 64-bit numbers with boundary values.
pub fn u64b() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        3 => 0u64..1000,
        2 => (0u32..64, -2i64..3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
        2 => (0u32..20, -2i64..3).prop_map(|(s, d)| 10u64.checked_pow(s).unwrap_or(u64::MAX).wrapping_add(d as u64)),
        1 => (0u64..4).prop_map(|d| u64::MAX - d),
        1 => (0u32..19, 0u64..1000).prop_map(|(s, m)| 10u64.pow(s).wrapping_mul(m)),
    ]
    .boxed()
}

/// Strings with everything that is awkward in URIs and texts.
pub fn wild() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[a-zA-Z0-9]{0,12}",
        3 => "[ -~]{0,16}",
        2 => vec(prop_oneof![Just('%'), Just('&'), Just('='), Just('+'), Just('#'), Just('?'), Just('/'), Just('\\'), Just('^'),
                Just('`'), Just('{'), Just('|'), Just('}'), Just('['), Just(']'), Just('<'), Just('>'), Just('"'), Just(' '), Just('~'),
                Just(','), Just(';'), Just(':'), Just('@'), Just('!'), Just('$'), Just('\''), Just('('), Just(')'), Just('*'), Just('\u{7f}'), Just('\n'), Just('\t'), Just('\0'),
                Just('2'), Just('5'), Just('é'), Just('漢'), Just('🦀')], 0..10).prop_map(|v| v.into_iter().collect()),
        1 => any::<String>().prop_map(|s| s.chars().take(20).collect()),
    ]
    .boxed()
}

/// An edit of a text.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Edit {
    Delete(u16),
    Insert(u16, char),
    Replace(u16, char),
    Swap(u16),
    Truncate(u16),
    Dup(u16, u8),
    Case(u16),
}

pub fn edit() -> BoxedStrategy<Edit> {
    let ch = prop_oneof![
        3 => prop::char::range(' ', '~'),
        2 => prop::sample::select(vec!['/', ':', '+', '~', '?', '&', '=', '@', '-', '#', '.', '%', ',', '0', 'a', 'A', '!', '$']),
        1 => any::<char>(),
    ];
    prop_oneof![
        any::<u16>().prop_map(Edit::Delete),
        (any::<u16>(), ch.clone()).prop_map(|(p, c)| Edit::Insert(p, c)),
        (any::<u16>(), ch).prop_map(|(p, c)| Edit::Replace(p, c)),
        any::<u16>().prop_map(Edit::Swap),
        any::<u16>().prop_map(Edit::Truncate),
        (any::<u16>(), 1u8..20).prop_map(|(p, n)| Edit::Dup(p, n)),
        any::<u16>().prop_map(Edit::Case),
    ]
    .boxed()
}

pub fn apply_edits(s: &str, edits: &[Edit]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for e in edits {
        let n = v.len();
        let at = |p: u16, n: usize| if n == 0 { 0 } else { p as usize % n };
        match e {
            Edit::Delete(p) if n > 0 => {
                v.remove(at(*p, n));
            }
            Edit::Insert(p, c) => v.insert(*p as usize % (n + 1), *c),
            Edit::Replace(p, c) if n > 0 => v[at(*p, n)] = *c,
            Edit::Swap(p) if n > 1 => {
                let i = at(*p, n - 1);
                v.swap(i, i + 1)
            }
            Edit::Truncate(p) => v.truncate(*p as usize % (n + 1)),
            Edit::Dup(p, l) if n > 0 => {
                let i = at(*p, n);
                let e = (i + *l as usize).min(n);
                let part = v[i..e].to_vec();
                for (k, c) in part.into_iter().enumerate() {
                    v.insert(e + k, c)
                }
            }
            Edit::Case(p) if n > 0 => {
                let i = at(*p, n);
                v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() }
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

/// An edit of bytes.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum ByteEdit {
    Set(u32, u8),
    Flip(u32, u8),
    Delete(u32, u8),
    Insert(u32, Vec<u8>),
    Truncate(u32),
    Append(Vec<u8>),
    Dup(u32, u8),
}

pub fn byte_edit() -> BoxedStrategy<ByteEdit> {
    prop_oneof![
        3 => (any::<u32>(), any::<u8>()).prop_map(|(p, b)| ByteEdit::Set(p, b)),
        4 => (any::<u32>(), 0u8..8).prop_map(|(p, b)| ByteEdit::Flip(p, b)),
        1 => (any::<u32>(), 1u8..9).prop_map(|(p, b)| ByteEdit::Delete(p, b)),
        1 => (any::<u32>(), vec(any::<u8>(), 1..9)).prop_map(|(p, b)| ByteEdit::Insert(p, b)),
        2 => any::<u32>().prop_map(ByteEdit::Truncate),
        1 => vec(any::<u8>(), 1..9).prop_map(ByteEdit::Append),
        1 => (any::<u32>(), 1u8..40).prop_map(|(p, b)| ByteEdit::Dup(p, b)),
    ]
    .boxed()
}

pub fn apply_byte_edits(data: &[u8], edits: &[ByteEdit]) -> Vec<u8> {
    let mut v = data.to_vec();
    for e in edits {
        let n = v.len();
        if n == 0 && !matches!(e, ByteEdit::Append(_)) {
            continue;
        }
        match e {
            ByteEdit::Set(p, b) => v[*p as usize % n] = *b,
            ByteEdit::Flip(p, b) => v[*p as usize % n] ^= 1 << b,
            ByteEdit::Delete(p, l) => {
                let i = *p as usize % n;
                v.drain(i..(i + *l as usize).min(n));
            }
            ByteEdit::Insert(p, b) => {
                let i = *p as usize % (n + 1);
                v.splice(i..i, b.iter().copied());
            }
            ByteEdit::Truncate(p) => v.truncate(*p as usize % n),
            ByteEdit::Append(b) => v.extend(b),
            ByteEdit::Dup(p, l) => {
                let i = *p as usize % n;
                let e = (i + *l as usize).min(n);
                let part = v[i..e].to_vec();
                v.splice(e..e, part);
            }
        }
    }
    v
}
