use std::borrow::Cow;

use compose_spec::service::image::{Digest, Image, Name, Tag, TagOrDigest};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, hash64, merge, opt, rejected, text, to_yaml};

pub fn run(op: &str, input: &Value) -> Value {
    let s = text(input, "s");
    match op {
        "image.parse" => merge(parse(s)),
        "image.name" => merge(name(s)),
        "image.tag" => merge(tag(s)),
        "image.digest" => merge(digest(s)),
        "image.edits" => edits(s, &input["es"]),
        "image.selfconsistent" => selfconsistent(s, &input["es"]),
        _ => json!({ "unknown-op": op }),
    }
}

/// Everything an observer can see of an image, cross-checked between accessors.
fn view(image: &Image) -> Result<Value, Value> {
    let s = image.as_str().to_owned();
    agree(
        "text",
        &[
            s.clone(),
            image.to_string(),
            image.clone().into_inner(),
            String::from(image.clone()),
            AsRef::<str>::as_ref(image).to_owned(),
            std::borrow::Borrow::<str>::borrow(image).to_owned(),
        ],
    )?;
    agree(
        "serialized",
        &[to_yaml(image), serde_yaml::Value::String(s.clone())],
    )?;
    agree("hash", &[hash64(image), hash64(s.as_str())])?;
    agree("equal to text", &[*image == s.as_str(), *image == *s.as_str(), true])?;
    let tod = image.as_tag_or_digest();
    agree(
        "tag",
        &[
            image.tag(),
            image.as_tag().map(Tag::into_inner),
            tod.and_then(TagOrDigest::into_tag).map(Tag::into_inner),
            image.as_parts().1.and_then(TagOrDigest::into_tag).map(Tag::into_inner),
        ],
    )?;
    agree(
        "digest",
        &[
            image.digest(),
            image.as_digest().map(Digest::into_inner),
            tod.and_then(TagOrDigest::into_digest).map(Digest::into_inner),
            image.as_parts().1.and_then(TagOrDigest::into_digest).map(Digest::into_inner),
        ],
    )?;
    let parts_name = image.as_parts().0;
    agree(
        "name",
        &[image.name(), image.as_name().into_inner(), parts_name.into_inner()],
    )?;
    let as_name = image.as_name();
    agree(
        "registry",
        &[image.registry(), as_name.registry(), parts_name.registry()],
    )?;
    Ok(json!({
        "ok": true,
        "text": s,
        "name": image.name(),
        "registry": opt(image.registry()),
        "tag": opt(image.tag()),
        "digest": opt(image.digest()),
    }))
}

fn parse(s: &str) -> Result<Value, Value> {
    let image = Image::parse(s);
    let others: [Result<Image, ()>; 7] = [
        Image::parse(s.to_owned()).map_err(drop),
        s.parse().map_err(drop),
        s.try_into().map_err(drop),
        s.to_owned().try_into().map_err(drop),
        Box::<str>::from(s).try_into().map_err(drop),
        Cow::Borrowed(s).try_into().map_err(drop),
        from_yaml_string(s).map_err(drop),
    ];
    let Ok(image) = image else {
        agree("accepted", &others.each_ref().map(Result::is_ok))?;
        return if others[0].is_ok() { Err(json!({ "disagreement": "accepted" })) } else { Ok(rejected()) };
    };
    let seen = view(&image)?;
    for other in &others {
        match other {
            Ok(other) => {
                agree("constructor", &[view(other)?, seen.clone()])?;
                agree("equality", &[*other == image, true])?;
            }
            Err(()) => return Err(json!({ "disagreement": "accepted" })),
        }
    }
    Ok(seen)
}

fn name(s: &str) -> Result<Value, Value> {
    let (a, b) = (Name::new(s), Name::try_from(s));
    agree("accepted", &[a.is_ok(), b.is_ok()])?;
    let Ok(name) = a else { return Ok(rejected()) };
    agree(
        "text",
        &[name.into_inner().to_owned(), name.to_string(), AsRef::<str>::as_ref(&name).to_owned()],
    )?;
    agree("hash", &[hash64(&name), hash64(s)])?;
    Ok(json!({ "ok": true, "text": name.into_inner(), "registry": opt(name.registry()) }))
}

fn tag(s: &str) -> Result<Value, Value> {
    let (a, b) = (Tag::new(s), Tag::try_from(s));
    agree("accepted", &[a.is_ok(), b.is_ok()])?;
    let Ok(tag) = a else { return Ok(rejected()) };
    agree(
        "text",
        &[tag.into_inner().to_owned(), tag.to_string(), AsRef::<str>::as_ref(&tag).to_owned()],
    )?;
    Ok(json!({ "ok": true, "text": tag.into_inner() }))
}

fn digest(s: &str) -> Result<Value, Value> {
    let (a, b) = (Digest::new(s), Digest::try_from(s));
    agree("accepted", &[a.is_ok(), b.is_ok()])?;
    let Ok(digest) = a else { return Ok(rejected()) };
    agree(
        "text",
        &[digest.into_inner().to_owned(), digest.to_string(), AsRef::<str>::as_ref(&digest).to_owned()],
    )?;
    Ok(json!({ "ok": true, "text": digest.into_inner() }))
}

fn apply(image: &mut Image, edit: &Value) -> Result<(), Value> {
    let value = edit["v"].get(0).and_then(Value::as_str);
    let bad = || json!({ "bad-edit": edit });
    let tag = |v: &'_ str| Tag::new(v).map(Tag::into_inner).map(str::to_owned).map_err(|_| bad());
    match text(edit, "e") {
        "registry" => {
            let registry = value.map(Name::new).transpose().map_err(|_| bad())?;
            image.set_registry(registry);
        }
        "name" => image.set_name(Name::new(value.ok_or_else(bad)?).map_err(|_| bad())?),
        "tag" => {
            let value = value.map(tag).transpose()?;
            image.set_tag(value.as_deref().map(Tag::new).transpose().map_err(|_| bad())?);
        }
        "digest" => {
            image.set_digest(value.map(Digest::new).transpose().map_err(|_| bad())?);
        }
        "tod-tag" => {
            let tag = Tag::new(value.ok_or_else(bad)?).map_err(|_| bad())?;
            image.set_tag_or_digest(Some(tag.into()));
        }
        "tod-digest" => {
            let digest = Digest::new(value.ok_or_else(bad)?).map_err(|_| bad())?;
            image.set_tag_or_digest(Some(digest.into()));
        }
        "tod-none" => image.set_tag_or_digest(None),
        "reassemble" => {
            let (name, tod) = image.as_parts();
            let a = Image::from_parts(name, tod);
            let b = Image::from((name, tod));
            let c = match tod {
                Some(tod) => Image::from((name, tod)),
                None => Image::from(name),
            };
            agree("reassembled", &[view(&a)?, view(&b)?, view(&c)?])?;
            *image = a;
        }
        _ => return Err(bad()),
    }
    Ok(())
}

/// Views after each prefix of the edit history.
fn edits(s: &str, edits: &Value) -> Value {
    let Ok(mut image) = Image::parse(s) else { return json!({ "views": [] }) };
    let mut views = vec![merge(view(&image))];
    for edit in edits.as_array().into_iter().flatten() {
        if let Err(value) = apply(&mut image, edit) {
            views.push(value);
            break;
        }
        views.push(merge(view(&image)));
    }
    json!({ "views": views })
}

/// After the history, is the image in every respect what parsing its text yields?
fn selfconsistent(s: &str, edits: &Value) -> Value {
    let Ok(mut image) = Image::parse(s) else { return rejected() };
    for edit in edits.as_array().into_iter().flatten() {
        if let Err(value) = apply(&mut image, edit) {
            return value;
        }
    }
    match Image::parse(image.as_str()) {
        Ok(again) => json!({ "consistent": merge(view(&image)) == merge(view(&again)) }),
        Err(_) => json!({ "consistent": false }),
    }
}
