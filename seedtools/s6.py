V='use mysql_connector::types::*;\n'
T='src/types/value/text.rs'
SEEDS=[
dict(id='C21-doubled-backtick', property='C21', needs='an identifier with two backticks in a row', breaks='the second of two backticks is not doubled, so that the identifier is closed early',
 edits=[(T,"""        for (i, char) in self.0.chars().enumerate() {
            if i < len && char_valid(char) {
                if char == '`' {
                    f.write_char('`')?;
                }
                f.write_char(char)?;
            }
        }""","""        let mut previous = None;
        for (i, char) in self.0.chars().enumerate() {
            if i < len && char_valid(char) {
                if char == '`' && previous != Some('`') {
                    f.write_char('`')?;
                }
                f.write_char(char)?;
            }
            previous = Some(char);
        }""")],
 main=V+'fn main() { assert_eq!(IdentifierEscape("a``b").to_string(), "`a````b`"); }'),
dict(id='C21-escaped-quote', property='C21', needs='a string with a backslash in front of a quote', breaks='a quote behind a backslash is not escaped although the backslash is, so that it closes the string',
 edits=[(T,"""    for char in chars {
        match char {
            '\\0' => {""","""    let mut previous = '\\0';
    for char in chars {
        let last = std::mem::replace(&mut previous, char);
        match char {
            '"' if last == '\\\\' => f.write_char('"')?,
            '\\0' => {""")],
 main=V+r'''fn main() { assert_eq!(StringEscape("a\\\"b").to_string(), "\"a\\\\\\\"b\""); }'''),
dict(id='C21-unquoted-range', property='C21', needs='an unquoted identifier with a character above U+FFFF', breaks='a character that is not allowed in unquoted identifiers is kept',
 edits=[(T,"""'$' | '_' | '\\u{0080}'..='\\u{FFFF}')
        }

        for""","""'$' | '_' | '\\u{0080}'..)
        }

        for""")],
 main=V+r'''fn main() { assert_eq!(UnquotedIdentifierEscape("a\u{10000}b").to_string(), "ab"); }'''),
dict(id='C21-trim-before-invalid', property='C21', needs='an identifier that ends with a space and a character outside U+0001..U+FFFF', breaks='the space before a removed character is kept at the end of the identifier',
 edits=[(T,"if !char.is_whitespace() && char_valid(char) {","if !char.is_whitespace() {")],
 main=V+r'''fn main() { assert_eq!(IdentifierEscape("ab \u{10000}").to_string(), "`ab`"); }'''),
dict(id='C21-time-days', property='C21', needs='a negative time of less than a day', breaks='the sign of such a time is lost in its text',
 edits=[(T,"""                if *negative {
                    write!(f, "-")?;""","""                if *negative && *days != 0 {
                    write!(f, "-")?;""")],
 main=V+r'''fn main() { assert_eq!(Value::Time(true, 0, 1, 2, 3, 0).to_string(), "\"-01:02:03\""); }'''),
dict(id='C21-fraction-width', property='C21', needs='a datetime with less than 100000 microseconds', breaks='the microseconds lose their leading zeros, so that MySQL reads another fraction',
 edits=[(T,"""            if *microseconds != 0 {
                write!(f, ".{microseconds:0>6}")?;""","""            if *microseconds >= 100_000 {
                write!(f, ".{microseconds:0>6}")?;
            } else if *microseconds >= 10 {
                write!(f, ".0000{microseconds:0>2}")?;
            } else if *microseconds != 0 {
                write!(f, ".00000{microseconds}")?;""")],
 main=V+r'''fn main() { assert_eq!(Value::Datetime(2000, 1, 1, 1, 2, 3, 4050).to_string(), "\"2000-01-01 01:02:03.004050\""); }'''),
]
