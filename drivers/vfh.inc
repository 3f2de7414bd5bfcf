extern func vf_next(): bool
extern func vf_op(name: string): bool
extern func vf_int(i: i32): i64
extern func vf_argc(): i32
extern func vf_str(i: i32): string
extern func vf_strlen(i: i32): u64
extern func vf_ri(v: i64): void
extern func vf_rb(v: bool): void
extern func vf_rs(s: string): void
extern func vf_rn(s: string, n: u64): void
extern func vf_sep(): void
extern func vf_end(): void
