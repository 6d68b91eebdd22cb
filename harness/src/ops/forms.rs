//! Sections as a whole: whether they are empty, and their short and long forms.

use std::fmt::Debug;

use compose_spec::{
    network::{Ipam, IpamConfig},
    service::{
        build::Context,
        deploy::{
            resources::{Device, DiscreteResourceSpec, GenericResource, Limits, Reservations},
            Placement, Preference, Resources, RestartPolicy, UpdateOrRollbackConfig,
        },
        env_file,
        healthcheck::Command,
        network_config::Network as ServiceNetwork,
        volumes::mount::{BindOptions, TmpfsOptions, VolumeOptions},
        BlkioConfig, Build, ConfigOrSecret, Dependency, Deploy, EnvFile, Healthcheck, Limit, Logging, Ulimit,
    },
    AsShort, AsShortIter, Identifier, Include, ItemOrList, Network, ShortOrLong, Volume,
};
use indexmap::{IndexMap, IndexSet};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use serde_yaml::Value as Yaml;

use crate::{
    ops::document::{build, view},
    util::{agree, merge, rejected, text},
};

pub fn run(op: &str, input: &Value) -> Value {
    let tree = build(&input["tree"]);
    merge(match op {
        "empty.of" => empty(text(input, "section"), tree),
        "forms.of" => match text(input, "kind") {
            "Include" => forms::<std::path::PathBuf, Include>(tree),
            "Build" => forms::<Context, Build>(tree),
            "ConfigOrSecret" => forms::<Identifier, ConfigOrSecret>(tree),
            "EnvFile" => forms::<std::path::PathBuf, env_file::Config>(tree),
            "Ulimit" => forms::<Limit<u64>, Ulimit>(tree),
            "DependsOn" => depends_on(tree),
            "Networks" => networks(tree),
            kind => Ok(json!({ "unknown-kind": kind })),
        },
        "forms.items" => items(tree),
        "forms.envfile" => env_files(tree),
        _ => Ok(json!({ "unknown-op": op })),
    })
}

fn empty(section: &str, tree: Yaml) -> Result<Value, Value> {
    macro_rules! by_section {
        ($($name:literal => $Ty:ty $(, $default:ident)?;)+) => {
            match section {
                $($name => serde_yaml::from_value::<$Ty>(tree).ok().map(|value| (value.is_empty(), by_section!(@ value, $Ty, $($default)?))),)+
                _ => return Ok(json!({ "unknown-section": section })),
            }
        };
        // Sections without room for hollow settings are empty just when they are what they are by default.
        (@ $value:ident, $Ty:ty, flat) => { Some($value == <$Ty>::default()) };
        (@ $value:ident, $Ty:ty,) => { (!<$Ty>::default().is_empty()).then_some(!$value.is_empty()) };
    }
    let found = if section == "Healthcheck" {
        match serde_yaml::from_value::<Healthcheck>(tree) {
            Ok(Healthcheck::Command(command)) => Some((command.is_empty(), Some(command == Command::default()))),
            Ok(Healthcheck::Disable) => Some((false, None)),
            Err(_) => None,
        }
    } else {
        by_section! {
            "Network" => Network; "Ipam" => Ipam; "IpamConfig" => IpamConfig, flat; "Volume" => Volume;
            "VolumeOptions" => VolumeOptions, flat; "BindOptions" => BindOptions, flat; "TmpfsOptions" => TmpfsOptions, flat;
            "ServiceNetwork" => ServiceNetwork, flat; "Resources" => Resources; "Limits" => Limits, flat; "Reservations" => Reservations;
            "ReservedDevice" => Device; "GenericResource" => GenericResource; "DiscreteResource" => DiscreteResourceSpec, flat;
            "Deploy" => Deploy; "Placement" => Placement; "Preference" => Preference, flat; "RestartPolicy" => RestartPolicy, flat;
            "UpdateConfig" => UpdateOrRollbackConfig, flat; "Blkio" => BlkioConfig, flat; "Build" => Build; "Logging" => Logging, flat;
        }
    };
    let Some((empty, default)) = found else {
        return Ok(rejected());
    };
    agree("is default", &[empty, default.unwrap_or(empty)])?;
    Ok(json!({ "ok": true, "empty": empty }))
}

fn tree_of<T: Serialize + ?Sized>(value: &T) -> Result<Value, Value> {
    serde_yaml::to_value(value).map(|tree| view("", &tree)).map_err(|e| json!({ "cannot-write": e.to_string() }))
}

fn maybe<T: Serialize + ?Sized>(value: Option<&T>) -> Result<Value, Value> {
    value.map_or(Ok(json!([])), |value| Ok(json!([tree_of(value)?])))
}

trait Form: Serialize + DeserializeOwned + Clone + PartialEq + Debug {}
impl<T: Serialize + DeserializeOwned + Clone + PartialEq + Debug> Form for T {}

/// A field with two forms.
fn forms<S, L>(tree: Yaml) -> Result<Value, Value>
where
    S: Form,
    L: Form + AsShort<Short = S> + From<S> + From<ShortOrLong<S, L>> + Into<ShortOrLong<S, L>>,
{
    let is_map = tree.is_mapping();
    let Ok(value) = serde_yaml::from_value::<ShortOrLong<S, L>>(tree.clone()) else {
        return Ok(rejected());
    };
    let as_text = serde_yaml::to_string(&tree).ok().and_then(|text| serde_yaml::from_str(&text).ok());
    agree("tree and text", &[Some(value.clone()), as_text])?;
    agree("is_short", &[value.is_short(), matches!(value, ShortOrLong::Short(_)), !is_map])?;
    agree("is_long", &[value.is_long(), value.as_long().is_some(), is_map])?;
    let long = value.clone().into_long();
    agree("into_long", &[&long, &L::from(value.clone())])?;
    let short = value.as_short().cloned();
    agree("as_short by reference", &[short.clone(), (&value).as_short().cloned()])?;
    match &value {
        ShortOrLong::Short(s) => {
            agree("long of short", &[&long, &L::from(s.clone())])?;
            agree("shortened again", &[Some(s), long.as_short(), (&long).as_short()])?;
        }
        ShortOrLong::Long(l) => {
            agree("long of long", &[&long, l, value.as_long().unwrap_or(&long)])?;
            agree("as_short", &[short.as_ref(), l.as_short(), (&l).as_short()])?;
            agree("from long", &[&value, &l.clone().into()])?;
            if let Some(s) = &short {
                // Only the spelling of a single item may differ.
                let again = L::from(s.clone());
                agree("lengthened again", &[again.as_short(), Some(s)])?;
            }
        }
    }
    let held = if value.is_short() { "short" } else { "long" };
    Ok(json!({
        "ok": true, "held": held, "written": tree_of(&value)?, "short": maybe(short.as_ref())?, "long": tree_of(&long)?,
    }))
}

/// A list of names or a map from them.
macro_rules! keyed {
    ($name:ident, $V:ty) => {
fn $name(tree: Yaml) -> Result<Value, Value> {
    type V = $V;
    type Held<V> = ShortOrLong<IndexSet<Identifier>, IndexMap<Identifier, V>>;
    let is_map = tree.is_mapping();
    let Ok(value) = serde_yaml::from_value::<Held<V>>(tree) else {
        return Ok(rejected());
    };
    agree("is_short", &[value.is_short(), matches!(value, ShortOrLong::Short(_)), !is_map])?;
    agree("is_long", &[value.is_long(), value.as_long().is_some(), is_map])?;
    let short: Option<Vec<Identifier>> = value.as_short_iter().map(|names| names.cloned().collect());
    let long = value.clone().into_long();
    agree("into_long", &[&long, &IndexMap::from(value.clone())])?;
    match &value {
        ShortOrLong::Short(names) => {
            agree("long of short", &[names.iter().cloned().collect::<Vec<_>>(), long.keys().cloned().collect()])?;
            agree("all default", &[true, long.values().all(|v| *v == V::default())])?;
            agree("from short", &[&value, &names.clone().into()])?;
            let again: Option<Vec<Identifier>> = long.as_short_iter().map(|names| names.cloned().collect());
            agree("shortened again", &[&short, &again])?;
        }
        ShortOrLong::Long(map) => {
            agree("long of long", &[&long, map])?;
            let direct: Option<Vec<Identifier>> = map.as_short_iter().map(|names| names.cloned().collect());
            let by_ref: Option<Vec<Identifier>> = (&map).as_short_iter().map(|names| names.cloned().collect());
            agree("as_short_iter", &[&short, &direct, &by_ref])?;
            agree("from long", &[&value, &map.clone().into()])?;
        }
    }
    let held = if value.is_short() { "short" } else { "long" };
    Ok(json!({
        "ok": true, "held": held, "written": tree_of(&value)?, "short": maybe(short.as_ref())?, "long": tree_of(&long)?,
    }))
}
    };
}
keyed!(depends_on, Dependency);
keyed!(networks, Option<ServiceNetwork>);

fn items(tree: Yaml) -> Result<Value, Value> {
    let is_list = tree.is_sequence();
    let Ok(value) = serde_yaml::from_value::<ItemOrList<String>>(tree) else {
        return Ok(rejected());
    };
    agree("as_list", &[value.as_list().is_some(), matches!(value, ItemOrList::List(_)), is_list])?;
    let item = value.as_item().cloned();
    let list = value.clone().into_list();
    agree("list", &[&list, value.as_list().unwrap_or(&list)])?;
    Ok(json!({ "ok": true, "item": maybe(item.as_ref())?, "list": tree_of(&list)?, "written": tree_of(&value)? }))
}

fn env_files(tree: Yaml) -> Result<Value, Value> {
    let Ok(value) = serde_yaml::from_value::<EnvFile>(tree) else {
        return Ok(rejected());
    };
    let single = value.as_single().cloned();
    let list = value.clone().into_list();
    let collected: EnvFile = list.iter().cloned().collect();
    agree("collected", &[&collected, &EnvFile::from(list.clone())])?;
    if let Some(path) = &single {
        agree("from single", &[Some(path), EnvFile::from(path.clone()).as_single(), collected.as_single()])?;
    }
    Ok(json!({ "ok": true, "single": maybe(single.as_ref())?, "list": tree_of(&list)?, "written": tree_of(&value)? }))
}
