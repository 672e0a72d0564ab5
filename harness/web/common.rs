/// Runs a future to its end.
fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

/// What is compared: of errors only the status.
fn shown(status: u16, types: Vec<String>, length: Option<String>, body: &[u8]) -> String {
    if status != 200 {
        return status.to_string();
    }
    let length = match length {
        Some(l) if l != body.len().to_string() => format!(" (length {l})"),
        _ => String::new(),
    };
    format!("{status}|{}{length}|{}", types.join(" and "), String::from_utf8_lossy(body))
}

/// The error has to be the one of `render()`.
fn attempted(r: Result<String, impl std::fmt::Display>, render: Result<String, impl std::fmt::Display>) -> String {
    match (r, render) {
        (Ok(s), _) => s,
        (Err(a), Err(b)) if a.to_string() == b.to_string() => "Err".to_string(),
        (Err(e), _) => format!("Err({e})"),
    }
}
