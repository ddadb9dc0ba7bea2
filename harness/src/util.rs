use serde_json::Value;

pub fn s(v: &Value, k: &str) -> String {
    v[k].as_str().unwrap_or_else(|| panic!("src/m_: string field {k} in {v}")).to_string()
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("src/m_: int field {k} in {v}"))
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("src/m_: bool field {k} in {v}"))
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .unwrap_or_else(|| panic!("src/m_: array {v}"))
        .iter()
        .map(|x| x.as_str().unwrap().to_string())
        .collect()
}
/// Number of threads of this process (to see that a background writer has finished).
pub fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(1)
}
