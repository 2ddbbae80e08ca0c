//! Stand-in for directories-next: the project directories are somewhere that does not exist.
use std::path::Path;
pub struct ProjectDirs;
impl ProjectDirs {
    pub fn from(_: &str, _: &str, _: &str) -> Option<Self> {
        Some(ProjectDirs)
    }
    pub fn config_dir(&self) -> &Path {
        Path::new("/nonexistent")
    }
    pub fn data_local_dir(&self) -> &Path {
        Path::new("/nonexistent")
    }
}
