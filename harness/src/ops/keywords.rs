//! Keywords: each set's words, read, written and printed in every way there is.

use std::{borrow::Cow, fmt::Display};

use compose_spec::{
    network::Driver,
    service::{
        deploy::{
            resources::Capability, EndpointMode, FailureAction, Mode as DeployMode, Order, RestartCondition,
        },
        develop::Action,
        ports::{Mode as PortMode, Protocol},
        volumes::{mount::BindPropagation, SELinux},
        Cgroup, Condition, PullPolicy, Restart, Uts,
    },
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::util::{agree, from_yaml_string, merge, opt, rejected, same, text};

/// What every keyword type can do.
trait Keyword: Serialize + DeserializeOwned + Display + PartialEq + Clone + std::fmt::Debug + AsRef<str> {
    /// The word for the variant, by name, or the text of an open set's other variant.
    fn word(&self) -> (String, bool);
    fn plain(&self) -> String;
    /// Ways of making one other than deserializing.
    fn made(_: &str) -> Vec<Option<Self>> {
        Vec::new()
    }
    fn more(&self) -> Result<(), Value> {
        Ok(())
    }
    fn default() -> Option<Self> {
        None
    }
}

macro_rules! closed {
    ($Ty:ty { $($Variant:ident => $word:literal),+ $(,)? } $(default $($default:tt)+)?) => {
        impl Keyword for $Ty {
            fn word(&self) -> (String, bool) {
                match self {
                    $(Self::$Variant => ($word.to_owned(), true),)+
                }
            }
            fn plain(&self) -> String {
                (*self).as_str().to_owned()
            }
            $(fn default() -> Option<Self> { Some($($default)+::default()) })?
        }
    };
}

macro_rules! open {
    ($Ty:ty { $($Variant:ident => $word:literal),+ $(,)? } [$($is:ident => $isword:literal),*] $(default $($default:tt)+)?) => {
        impl Keyword for $Ty {
            fn word(&self) -> (String, bool) {
                match self {
                    $(Self::$Variant => ($word.to_owned(), true),)+
                    Self::Other(other) => (other.clone(), false),
                }
            }
            fn plain(&self) -> String {
                self.as_str().to_owned()
            }
            fn made(s: &str) -> Vec<Option<Self>> {
                vec![
                    Some(Self::parse(s)),
                    Some(Self::parse(s.to_owned())),
                    s.parse().ok(),
                    Some(s.into()),
                    Some(s.to_owned().into()),
                    Some(Box::<str>::from(s).into()),
                    Some(Cow::Borrowed(s).into()),
                    Some(Cow::<str>::Owned(s.to_owned()).into()),
                ]
            }
            fn more(&self) -> Result<(), Value> {
                let string: String = self.clone().into();
                let cow: Cow<'static, str> = self.clone().into();
                agree("into text", &[self.plain(), string, cow.into_owned()])?;
                $(agree(stringify!($is), &[self.$is(), self.plain() == $isword])?;)*
                Ok(())
            }
            $(fn default() -> Option<Self> { Some($($default)+::default()) })?
        }
    };
}

closed!(Cgroup { Host => "host", Private => "private" });
closed!(Condition {
    ServiceStarted => "service_started",
    ServiceHealthy => "service_healthy",
    ServiceCompletedSuccessfully => "service_completed_successfully",
} default <Condition as Default>);
closed!(Uts { Host => "host" } default <Uts as Default>);
closed!(PullPolicy { Always => "always", Never => "never", Missing => "missing", Build => "build" } default <PullPolicy as Default>);
closed!(Restart { No => "no", Always => "always", OnFailure => "on-failure", UnlessStopped => "unless-stopped" } default <Restart as Default>);
closed!(PortMode { Host => "host", Ingress => "ingress" } default <PortMode as Default>);
closed!(DeployMode { Global => "global", Replicated => "replicated" } default <DeployMode as Default>);
closed!(RestartCondition { None => "none", OnFailure => "on-failure", Any => "any" } default <RestartCondition as Default>);
closed!(FailureAction { Continue => "continue", Pause => "pause" } default <FailureAction as Default>);
closed!(Order { StopFirst => "stop-first", StartFirst => "start-first" } default <Order as Default>);
closed!(Action { Rebuild => "rebuild", Sync => "sync", SyncAndRestart => "sync+restart" });
closed!(BindPropagation {
    Private => "private", Shared => "shared", Slave => "slave", Unbindable => "unbindable",
    RPrivate => "rprivate", RShared => "rshared", RSlave => "rslave", RUnbindable => "runbindable",
} default <BindPropagation as Default>);

impl Keyword for SELinux {
    fn word(&self) -> (String, bool) {
        match self {
            Self::Shared => ("z".to_owned(), true),
            Self::Private => ("Z".to_owned(), true),
        }
    }
    fn plain(&self) -> String {
        (*self).as_str().to_owned()
    }
    fn more(&self) -> Result<(), Value> {
        agree("as_char", &[self.plain(), (*self).as_char().to_string(), char::from(*self).to_string()])
    }
}

open!(EndpointMode { VIp => "vip", DnsRR => "dnsrr" } [is_vip => "vip", is_dnsrr => "dnsrr"]);
open!(Driver { Host => "host", None => "none" } []);
open!(Capability { Gpu => "gpu", Tpu => "tpu" } [is_gpu => "gpu", is_tpu => "tpu"]);
open!(Protocol { Tcp => "tcp", Udp => "udp" } [is_tcp => "tcp", is_udp => "udp"] default <Protocol as Default>);

pub fn run(op: &str, input: &Value) -> Value {
    macro_rules! by_set {
        ($($set:literal => $Ty:ty),+ $(,)?) => {
            match text(input, "set") {
                $($set => match op {
                    "kw.read" => read::<$Ty>(text(input, "s")),
                    "kw.default" => default::<$Ty>(),
                    _ => Ok(json!({ "unknown-op": op })),
                },)+
                set => Ok(json!({ "unknown-set": set })),
            }
        };
    }
    merge(by_set! {
        "cgroup" => Cgroup,
        "condition" => Condition,
        "uts" => Uts,
        "pull_policy" => PullPolicy,
        "restart" => Restart,
        "port_mode" => PortMode,
        "deploy_mode" => DeployMode,
        "restart_condition" => RestartCondition,
        "failure_action" => FailureAction,
        "order" => Order,
        "action" => Action,
        "propagation" => BindPropagation,
        "selinux" => SELinux,
        "endpoint_mode" => EndpointMode,
        "network_driver" => Driver,
        "capability" => Capability,
        "protocol" => Protocol,
    })
}

fn read<T: Keyword>(s: &str) -> Result<Value, Value> {
    let mut made = vec![from_yaml_string::<T>(s).ok()];
    // As text, written so that it stays a text.
    let quoted = serde_json::to_string(s).unwrap_or_default();
    made.push(serde_yaml::from_str::<T>(&quoted).ok());
    made.push(serde_json::from_str::<T>(&quoted).ok());
    made.extend(T::made(s));
    let Some(value) = same("ways of reading", made)? else {
        return Ok(rejected());
    };
    let (word, known) = value.word();
    let tree = serde_yaml::to_value(&value).ok().and_then(|v| v.as_str().map(str::to_owned));
    let json = serde_json::to_value(&value).ok().and_then(|v| v.as_str().map(str::to_owned));
    let written = serde_yaml::to_string(&value).ok().and_then(|text| serde_yaml::from_str::<T>(&text).ok());
    agree("variant and texts", &[Some(word.clone()), Some(value.plain()), Some(value.to_string()), Some(value.as_ref().to_owned()), tree, json])?;
    agree("written text reads back", &[Some(value.clone()), written])?;
    value.more()?;
    Ok(json!({ "ok": true, "text": word, "known": known }))
}

fn default<T: Keyword>() -> Result<Value, Value> {
    Ok(json!({ "default": opt(T::default().map(|value| value.word().0)) }))
}
