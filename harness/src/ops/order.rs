//! Two values side by side: order, equality, hash and look-up.

use std::{
    borrow::Borrow,
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet, HashMap},
    fmt::Debug,
    hash::Hash,
    path::Path,
    str::FromStr,
};

use compose_spec::{
    service::{
        blkio_config::Weight,
        build::CacheOption,
        image::{Digest, Name as ImageName, Tag},
        network_config::MacAddress,
        volumes::{AbsolutePath, HostPath},
        Hostname, Image, Limit, OomScoreAdj, Percent, Resource,
    },
    ExtensionKey, Identifier, MapKey, Name,
};
use indexmap::{IndexMap, IndexSet};
use serde_json::{json, Value};

use crate::util::{agree, hash64, merge, rejected, text};

type Answer = Result<Option<Ordering>, Value>;

/// The laws of an order, and what follows from it.
fn ordered<T: Ord + Clone + Debug>(a: &T, b: &T) -> Result<Ordering, Value> {
    let order = a.cmp(b);
    agree("order", &[Some(order), a.partial_cmp(b), Some(b.cmp(a).reverse()), b.partial_cmp(a).map(Ordering::reverse), Some(a.clone().cmp(&b.clone()))])?;
    agree("equality and order", &[order.is_eq(), a == b, b == a, !(a != b), !(b != a)])?;
    agree("less", &[order.is_lt(), a < b, b > a, !(a >= b), !(b <= a)])?;
    let set: BTreeSet<T> = [a.clone(), b.clone()].into();
    agree("least", &[set.first(), Some(a.min(b))])?;
    agree("greatest", &[set.last(), Some(a.max(b))])?;
    Ok(order)
}

/// Equal values have equal hashes, and are one in a set.
fn hashed<T: Ord + Clone + Debug + Hash>(a: &T, b: &T) -> Result<Ordering, Value> {
    let order = ordered(a, b)?;
    if order.is_eq() {
        agree("hash", &[hash64(a), hash64(b)])?;
    }
    let set: IndexSet<T> = [a.clone(), b.clone()].into();
    agree("one in a set", &[order.is_eq(), set.len() == 1])?;
    Ok(order)
}

/// They are found by what they say.
fn found<T, Q>(a: &T, b: &T, say: impl Fn(&T) -> &Q) -> Result<Ordering, Value>
where
    T: Ord + Clone + Debug + Hash + Borrow<Q>,
    Q: Ord + Hash + Eq + ?Sized,
{
    let order = hashed(a, b)?;
    agree("hash of what is said", &[hash64(a), hash64(say(a))])?;
    agree("order of what is said", &[order, say(a).cmp(say(b)), a.borrow().cmp(b.borrow())])?;
    let map: IndexMap<T, u8> = [(a.clone(), 1)].into();
    let hash: HashMap<T, u8> = [(a.clone(), 1)].into();
    let tree: BTreeMap<T, u8> = [(a.clone(), 1)].into();
    agree("found", &[
        order.is_eq(),
        map.contains_key(say(b)),
        hash.contains_key(say(b)),
        tree.contains_key::<Q>(say(b)),
        map.contains_key::<T>(b),
        hash.contains_key::<T>(b),
        tree.contains_key::<T>(b),
    ])?;
    Ok(order)
}

/// A type with a text.
fn word<T>(a: &str, b: &str, say: impl Fn(&T) -> &str) -> Answer
where
    T: FromStr + Ord + Clone + Debug + Hash + Borrow<str> + PartialEq<str> + for<'a> PartialEq<&'a str>,
{
    let (Ok(a), Ok(b)) = (a.parse::<T>(), b.parse::<T>()) else { return Ok(None) };
    let order = found(&a, &b, &say)?;
    agree("equals its text", &[order.is_eq(), a == *say(&b), b == *say(&a), a == say(&b), b == say(&a)])?;
    Ok(Some(order))
}

/// A part of an image, with a text.
fn part<'a, T, E>(a: &'a str, b: &'a str, new: impl Fn(&'a str) -> Result<T, E>, say: impl Fn(&T) -> &str) -> Answer
where
    T: Ord + Clone + Debug + Hash + Borrow<str> + PartialEq<str> + for<'b> PartialEq<&'b str>,
{
    let (Ok(a), Ok(b)) = (new(a), new(b)) else { return Ok(None) };
    let order = found(&a, &b, &say)?;
    agree("equals its text", &[order.is_eq(), a == *say(&b), b == *say(&a), a == say(&b), b == say(&a)])?;
    Ok(Some(order))
}

fn path<T>(a: &str, b: &str, say: impl Fn(&T) -> &Path) -> Answer
where
    T: FromStr + Ord + Clone + Debug + Hash + Borrow<Path> + PartialEq<Path>,
{
    let (Ok(a), Ok(b)) = (a.parse::<T>(), b.parse::<T>()) else { return Ok(None) };
    let order = found(&a, &b, &say)?;
    agree("equals its path", &[order.is_eq(), a == *say(&b), b == *say(&a)])?;
    Ok(Some(order))
}

fn number<N: FromStr, T: Ord + Clone + Debug + Hash>(a: &str, b: &str, make: impl Fn(N) -> Option<T>) -> Answer {
    let make = |s: &str| s.parse().ok().and_then(&make);
    let (Some(a), Some(b)) = (make(a), make(b)) else { return Ok(None) };
    hashed(&a, &b).map(Some)
}

fn limit<N: FromStr, T: Ord + Clone + Debug>(a: &str, b: &str, make: impl Fn(N) -> T) -> Answer {
    let make = |s: &str| match s {
        "-1" => Some(Limit::Unlimited),
        s => s.parse().ok().map(|n| Limit::Value(make(n))),
    };
    let (Some(a), Some(b)) = (make(a), make(b)) else { return Ok(None) };
    ordered(&a, &b).map(Some)
}

fn order(kind: &str, a: &str, b: &str) -> Answer {
    match kind {
        "key.project" => {
            let (Ok(a), Ok(b)) = (a.parse::<Name>(), b.parse::<Name>()) else { return Ok(None) };
            ordered(&a, &b).map(Some)
        }
        "key.identifier" => word::<Identifier>(a, b, |k| k.as_str()),
        "key.map" => word::<MapKey>(a, b, |k| k.as_str()),
        "key.extension" => word::<ExtensionKey>(a, b, |k| k.as_str()),
        "key.hostname" => word::<Hostname>(a, b, |k| k.as_str()),
        "key.ulimit" => word::<Resource>(a, b, |k| k.as_str()),
        "key.user" => word::<compose_spec::service::user::Name>(a, b, |k| k.as_str()),
        "key.cacheoption" => word::<CacheOption>(a, b, |k| k.as_str()),
        "image.parse" => word::<Image>(a, b, |k| k.as_str()),
        "image.name" => part(a, b, |s| ImageName::new(s), |p| p.as_ref()),
        "image.tag" => part(a, b, |s| Tag::new(s), |p| p.as_ref()),
        "image.digest" => part(a, b, |s| Digest::new(s), |p| p.as_ref()),
        "mac.parse" => {
            let (Ok(x), Ok(y)) = (a.parse::<MacAddress>(), b.parse::<MacAddress>()) else { return Ok(None) };
            hashed(&x, &y).map(Some)
        }
        "abspath.parse" => path::<AbsolutePath>(a, b, |p| p.as_path()),
        "hostpath.parse" => path::<HostPath>(a, b, |p| p.as_path()),
        "weight" => number(a, b, |n: u16| Weight::new(n).ok()),
        "score" => number(a, b, |n: i16| OomScoreAdj::new(n).ok()),
        "percent" => number(a, b, |n: u8| Percent::new(n).ok()),
        "limit" => {
            let whole = limit(a, b, |n: u64| n)?;
            agree("limits", &[whole, limit(a, b, |n: u32| n)?.or(whole), limit(a, b, |n: u128| n)?])?;
            Ok(whole)
        }
        _ => Err(json!({ "unknown-kind": kind })),
    }
}

pub fn run(op: &str, input: &Value) -> Value {
    merge(match op {
        "order.of" => order(text(input, "kind"), text(input, "a"), text(input, "b")).map(|order| match order {
            Some(Ordering::Less) => json!({ "ok": true, "order": "less" }),
            Some(Ordering::Equal) => json!({ "ok": true, "order": "same" }),
            Some(Ordering::Greater) => json!({ "ok": true, "order": "greater" }),
            None => rejected(),
        }),
        _ => Ok(json!({ "unknown-op": op })),
    })
}
