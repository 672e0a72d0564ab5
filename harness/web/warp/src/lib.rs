include!("../../common.rs");
use askama_warp::warp::hyper::body::to_bytes;
use askama_warp::warp::reply::{Reply, Response};
use askama_warp::Template;

fn answer(r: Response) -> String {
    let (parts, body) = r.into_parts();
    let body = block_on(to_bytes(body)).unwrap();
    let get = |n: &str| parts.headers.get_all(n).iter().map(|v| v.to_str().unwrap().to_string()).collect::<Vec<_>>();
    shown(parts.status.as_u16(), get("content-type"), get("content-length").pop(), &body)
}

pub fn respond<T: Template + Reply>(t: T) -> String {
    answer(t.into_response())
}
pub fn direct<T: Template>(t: &T) -> String {
    answer(askama_warp::into_response(t))
}
pub fn attempt<T: Template>(t: &T) -> String {
    attempted(askama_warp::try_into_response(t).map(answer), t.render())
}
