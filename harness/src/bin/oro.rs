//! The command line itself: /repo's src/main.rs, built with the harness.
#[async_std::main]
async fn main() -> miette::Result<()> {
    Ok(orogene::Orogene::load().await?)
}
