include!("../../common.rs");
use askama_axum::axum_core::response::{IntoResponse, Response};
use askama_axum::Template;
use http_body_util::BodyExt;

fn answer(r: Response) -> String {
    let (parts, body) = r.into_parts();
    let body = block_on(body.collect()).unwrap().to_bytes();
    let get = |n: &str| parts.headers.get_all(n).iter().map(|v| v.to_str().unwrap().to_string()).collect::<Vec<_>>();
    shown(parts.status.as_u16(), get("content-type"), get("content-length").pop(), &body)
}

pub fn respond<T: Template + IntoResponse>(t: T) -> String {
    answer(t.into_response())
}
pub fn direct<T: Template>(t: &T) -> String {
    answer(askama_axum::into_response(t))
}
pub fn attempt<T: Template>(t: &T) -> String {
    attempted(askama_axum::try_into_response(t).map(answer), t.render())
}
