//! A stand-in for `aws-config`.
use aws_credential_types::provider::{future, ProvideCredentials, SharedCredentialsProvider};
use aws_types::region::Region;
use aws_types::SdkConfig;

#[derive(Default)]
pub struct ConfigLoader {
    provider: Option<SharedCredentialsProvider>,
    region: Option<Region>,
    endpoint: Option<String>,
}
pub fn from_env() -> ConfigLoader {
    ConfigLoader::default()
}
impl ConfigLoader {
    pub fn credentials_provider(mut self, p: impl ProvideCredentials + 'static) -> Self {
        self.provider = Some(SharedCredentialsProvider::new(p));
        self
    }
    pub fn region(mut self, r: impl Into<Option<Region>>) -> Self {
        self.region = r.into();
        self
    }
    pub fn endpoint_url(mut self, e: impl Into<String>) -> Self {
        self.endpoint = Some(e.into());
        self
    }
    pub async fn load(self) -> SdkConfig {
        let mut b = SdkConfig::builder();
        b.set_region(self.region).set_endpoint_url(self.endpoint).set_credentials_provider(self.provider);
        b.build()
    }
}

pub mod ecs {
    use super::*;
    #[derive(Debug)]
    pub struct EcsCredentialsProvider;
    pub struct Builder;
    impl EcsCredentialsProvider {
        pub fn builder() -> Builder {
            Builder
        }
    }
    impl Builder {
        pub fn build(self) -> EcsCredentialsProvider {
            EcsCredentialsProvider
        }
    }
    impl ProvideCredentials for EcsCredentialsProvider {
        fn provide_credentials<'a>(&'a self) -> future::ProvideCredentials<'a>
        where
            Self: 'a,
        {
            future::ProvideCredentials::ready(Ok(aws_credential_types::Credentials::from_keys(
                "ecs-container",
                "ecs-secret",
                None,
            )))
        }
    }
}
