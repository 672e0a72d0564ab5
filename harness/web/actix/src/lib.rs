include!("../../common.rs");
use askama_actix::actix_web::body::{to_bytes, BoxBody};
use askama_actix::actix_web::{test::TestRequest, HttpResponse, Responder};
use askama_actix::Template;

fn answer(r: HttpResponse<BoxBody>) -> String {
    let status = r.status().as_u16();
    let get = |n: &str| r.headers().get_all(n).map(|v| v.to_str().unwrap().to_string()).collect::<Vec<_>>();
    let (types, length) = (get("content-type"), get("content-length").pop());
    let body = block_on(to_bytes(r.into_body())).unwrap();
    shown(status, types, length, &body)
}

pub fn respond<T: Template + Responder<Body = BoxBody>>(t: T) -> String {
    answer(t.respond_to(&TestRequest::default().to_http_request()))
}
pub fn direct<T: Template>(t: &T) -> String {
    answer(askama_actix::into_response(t))
}
pub fn attempt<T: Template>(t: &T) -> String {
    attempted(askama_actix::try_into_response(t).map(answer), t.render())
}
