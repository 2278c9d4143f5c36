F='src/types/value/conversion.rs'
V='use mysql_connector::types::*;\nuse std::convert::*;\n'
SEEDS=[
dict(id='C27-negative-fraction', property='C27', needs='a negative time of less than a second', breaks='the fraction of such a time is lost when it is converted to a Duration',
 edits=[(F,"                    x *= -1;\n\n                    if micros != 0 {","                    x *= -1;\n\n                    if x != 0 && micros != 0 {")],
 main=V+'fn main() { let d: chrono::Duration = Value::Time(true, 0, 0, 0, 0, 500_000).try_into().unwrap(); assert_eq!(d, chrono::Duration::milliseconds(-500)); }'),
dict(id='C27-year-wrap', property='C27', needs='a date with a negative year', breaks='a year that cannot be represented is wrapped instead of refused',
 edits=[(F,"""            value
                .year()
                .try_into()
                .map_err(|_| SerializeError::InvalidValue(ValueType::Date, Box::new(value)))?,""","""            value.year() as u16,""")],
 main=V+'fn main() { let d = chrono::NaiveDate::from_ymd_opt(-5, 1, 2).unwrap(); let r: Result<Value, _> = d.try_into(); assert!(r.is_err()); }'),
dict(id='C27-option-kind', property='C27', needs='an optional field read from a column of another kind', breaks='a value of another kind is taken for NULL',
 edits=[(F,"                        x => x.try_into().map(Some),","                        x => Ok(TryInto::<$t>::try_into(x).ok()),")],
 main=V+'fn main() { let r: Result<Option<i32>, _> = Value::Bytes(vec![1]).try_into(); assert!(r.is_err()); }'),
]
