include!("../../common.rs");
use askama_rocket::rocket::local::asynchronous::Client;
use askama_rocket::rocket::response::{Responder, Response};
use askama_rocket::rocket::{build, config::Config};
use askama_rocket::Template;
use std::sync::OnceLock;

fn answer(mut r: Response<'static>) -> String {
    let status = r.status().code;
    let get = |n: &str| r.headers().get(n).map(|v| v.to_string()).collect::<Vec<_>>();
    let (types, length) = (get("content-type"), get("content-length").pop());
    let preset = r.body().preset_size().map(|n| n.to_string());
    let body = block_on(r.body_mut().to_bytes()).unwrap();
    shown(status, types, length.or(preset), &body)
}

static CLIENT: OnceLock<Client> = OnceLock::new();

pub fn respond<T: Template + for<'r> Responder<'r, 'static>>(t: T) -> String {
    let client = CLIENT.get_or_init(|| {
        let config = Config { log_level: askama_rocket::rocket::config::LogLevel::Off, ..Config::debug_default() };
        block_on(Client::untracked(build().configure(config))).unwrap()
    });
    let request = client.get("/");
    match t.respond_to(request.inner()) {
        Ok(r) => answer(r),
        Err(status) => shown(status.code, vec![], None, b""),
    }
}
pub fn direct<T: Template>(t: &T) -> String {
    let a = answer(askama_rocket::into_response(t));
    let b = match askama_rocket::respond(t) {
        Ok(r) => answer(r),
        Err(status) => shown(status.code, vec![], None, b""),
    };
    match a == b {
        true => a,
        false => format!("into_response(): {a} but respond(): {b}"),
    }
}
pub fn attempt<T: Template>(t: &T) -> String {
    attempted(askama_rocket::try_into_response(t).map(answer), t.render())
}
