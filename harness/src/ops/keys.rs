use std::borrow::{Borrow, Cow};

use compose_spec::{
    service::{self, build::CacheOption, Hostname},
    ExtensionKey, Identifier, MapKey,
};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, hash64, merge, rejected, same, text, to_yaml};

/// Texts against which validity keys are compared and ordered.
const PIVOTS: &[&str] = &["", "0", "A", "a", "x-", "zz", "é"];

macro_rules! check_key {
    ($Ty:ty, $s:expr) => {{
        let s: &str = $s;
        let made = same(
            "constructors",
            vec![
                <$Ty>::new(s).ok(),
                <$Ty>::new(s.to_owned()).ok(),
                <$Ty>::try_from(s).ok(),
                <$Ty>::try_from(s.to_owned()).ok(),
                <$Ty>::try_from(Box::<str>::from(s)).ok(),
                <$Ty>::try_from(Cow::Borrowed(s)).ok(),
                s.parse::<$Ty>().ok(),
                from_yaml_string::<$Ty>(s).ok(),
            ],
        )?;
        let Some(key) = made else { return Ok(rejected()) };
        agree(
            "text",
            &[
                key.as_str().to_owned(),
                key.to_string(),
                AsRef::<str>::as_ref(&key).to_owned(),
                Borrow::<str>::borrow(&key).to_owned(),
                String::from(key.clone()),
                Box::<str>::from(key.clone()).into_string(),
            ],
        )?;
        agree("serialized", &[to_yaml(&key), serde_yaml::Value::String(key.to_string())])?;
        agree("hash", &[hash64(&key), hash64(key.as_str())])?;
        agree("equals its text", &[key == *s, key == s, *key.as_str() == *s])?;
        for pivot in PIVOTS {
            agree("equals another text", &[key == **pivot, key == *pivot, key.as_str() == *pivot])?;
            if let Ok(other) = <$Ty>::new(*pivot) {
                agree("order", &[key.cmp(&other), key.as_str().cmp(pivot)])?;
                agree("equality", &[key == other, key.as_str() == *pivot])?;
            }
        }
        key
    }};
}

fn show(key: &impl ToString) -> Value {
    json!({ "ok": true, "text": key.to_string() })
}

fn check(op: &str, s: &str) -> Result<Value, Value> {
    Ok(match op {
        "key.project" => {
            use compose_spec::Name;
            let made = same(
                "constructors",
                vec![
                    Name::new(s).ok(),
                    Name::try_from(s).ok(),
                    Name::try_from(s.to_owned()).ok(),
                    Name::try_from(Box::<str>::from(s)).ok(),
                    s.parse::<Name>().ok(),
                    from_yaml_string::<Name>(s).ok(),
                ],
            )?;
            let Some(name) = made else { return Ok(rejected()) };
            agree(
                "text",
                &[
                    name.as_str().to_owned(),
                    name.to_string(),
                    AsRef::<str>::as_ref(&name).to_owned(),
                    String::from(name.clone()),
                    Box::<str>::from(name.clone()).into_string(),
                ],
            )?;
            agree("serialized", &[to_yaml(&name), serde_yaml::Value::String(name.to_string())])?;
            for pivot in PIVOTS {
                if let Ok(other) = Name::new(*pivot) {
                    agree("equality", &[name == other, name.as_str() == *pivot])?;
                }
            }
            show(&name)
        }
        "key.identifier" => show(&check_key!(Identifier, s)),
        "key.map" => show(&check_key!(MapKey, s)),
        "key.extension" => {
            let key = check_key!(ExtensionKey, s);
            agree("prefix", &[format!("x-{}", key.strip_prefix()), key.to_string()])?;
            show(&key)
        }
        "key.hostname" => show(&check_key!(Hostname, s)),
        "key.ulimit" => show(&check_key!(service::Resource, s)),
        "key.user" => show(&check_key!(service::user::Name, s)),
        "key.cacheoption" => show(&check_key!(CacheOption, s)),
        _ => json!({ "unknown-op": op }),
    })
}

pub fn run(op: &str, input: &Value) -> Value {
    merge(check(op, text(input, "s")))
}
