//! Inert stand-in for the Hive console SDK (a third-party SaaS client).
pub mod agent {
    pub mod usage_agent {
        use graphql_tools::static_graphql::schema::Document;
        use std::{sync::Arc, time::Duration};

        #[derive(Clone, Default)]
        pub struct UsageAgent;
        #[derive(Default)]
        pub struct Builder;
        impl UsageAgent {
            pub fn builder() -> Builder {
                Builder
            }
        }
        impl Builder {
            pub fn token(self, _: String) -> Self {
                self
            }
            pub fn target_id(self, _: String) -> Self {
                self
            }
            pub fn build(self) -> Result<UsageAgent, String> {
                Ok(UsageAgent)
            }
        }
        pub struct ExecutionReport {
            pub schema: Arc<Document>,
            pub client_name: Option<String>,
            pub client_version: Option<String>,
            pub timestamp: u64,
            pub duration: Duration,
            pub ok: bool,
            pub errors: usize,
            pub operation_body: String,
            pub operation_name: Option<String>,
            pub persisted_document_hash: Option<String>,
        }
        #[allow(async_fn_in_trait)]
        pub trait UsageAgentExt {
            fn add_report(&self, _r: ExecutionReport) -> impl std::future::Future<Output = Result<(), String>> + Send {
                async { Ok(()) }
            }
            fn start_flush_interval(
                &self,
                _t: &tokio_util::sync::CancellationToken,
            ) -> impl std::future::Future<Output = ()> + Send {
                async {}
            }
        }
        impl UsageAgentExt for UsageAgent {}
    }
}
