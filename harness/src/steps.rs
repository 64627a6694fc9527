//! Runs the workflow steps (plugin functions) of the implementation on a message.
use crate::targets::guard;
use dataflow_rs::engine::message::{Change, Message};
use dataflow_rs::engine::{AsyncFunctionHandler, FunctionConfig};
use datalogic_rs::DataLogic;
use serde_json::{Value, json};
use std::future::Future;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub type Handler = Box<dyn AsyncFunctionHandler + Send + Sync>;

/// The steps as the library registers them.
pub struct Steps {
    all: Vec<(&'static str, Handler)>,
    logic: Arc<DataLogic>,
}
impl Steps {
    pub fn new() -> Steps {
        Steps { all: mx_message::plugin::register_mx_functions(), logic: Arc::new(DataLogic::new()) }
    }
    pub fn names(&self) -> Vec<&'static str> {
        self.all.iter().map(|x| x.0).collect()
    }
    pub fn run_cfg(&self, step: &str, m: &mut Message, c: &FunctionConfig) -> Result<(usize, Vec<Change>), String> {
        let h = &self.all.iter().find(|x| x.0 == step).ok_or(format!("step {step} is not registered"))?.1;
        guard(|| block_on(h.execute(m, c, self.logic.clone())))?.map_err(|e| format!("ERR: {e}"))
    }
    pub fn run(&self, step: &str, m: &mut Message, input: Value) -> Result<(usize, Vec<Change>), String> {
        self.run_cfg(step, m, &FunctionConfig::Custom { name: step.to_string(), input })
    }
    /// Parse step on one content; the parsed JSON and the recorded message type.
    pub fn parse(&self, xml: &str) -> Result<(Value, String), String> {
        let mut m = message(json!({"in": xml}));
        self.run("parse_mx", &mut m, json!({"source": "in", "target": "out"}))?;
        let t = m.metadata()["out"]["message_type"].as_str().ok_or("no message type recorded")?.to_string();
        Ok((m.data()["out"].clone(), t))
    }
    /// Publish step on one JSON value.
    pub fn publish(&self, v: &Value) -> Result<String, String> {
        let mut m = message(json!({"in": v}));
        self.run("publish_mx", &mut m, json!({"source": "in", "target": "out"}))?;
        Ok(m.data()["out"].as_str().ok_or("published value is not a text")?.to_string())
    }
    /// Validate step on one content; the stored result.
    pub fn validate(&self, xml: &str) -> Result<Value, String> {
        let mut m = message(json!({"in": xml}));
        self.run("validate_mx", &mut m, json!({"source": "in", "target": "out"}))?;
        Ok(m.data()["out"].clone())
    }
}

/// The steps never wait for anything; a pending future means they do.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut c = Context::from_waker(Waker::noop());
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut c) {
            return x;
        }
    }
    panic!("step does not complete")
}

pub fn message(data: Value) -> Message {
    full_message(Value::Null, data, json!({}))
}
pub fn full_message(payload: Value, data: Value, metadata: Value) -> Message {
    let mut m = Message::new(Arc::new(payload));
    m.context = json!({"data": data, "metadata": metadata, "temp_data": {"keep": [1, "x"]}});
    m
}
/// verdict of a stored validation result, if it is one
pub fn verdict(v: &Value) -> Result<bool, String> {
    let valid = v["valid"].as_bool().ok_or("no verdict")?;
    let errs = v["errors"].as_array().ok_or("no error list")?;
    if errs.iter().any(|e| e.as_str().is_none_or(|s| s.is_empty())) {
        return Err("an error is not a text".into());
    }
    if !v["warnings"].is_array() {
        return Err("no warning list".into());
    }
    if valid != errs.is_empty() {
        return Err(format!("valid={valid} with {} errors", errs.len()));
    }
    Ok(valid)
}
