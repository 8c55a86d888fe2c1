//! Prints what credentials show in whatever way the features allow: lines of `key TAB entry TAB
//! value`, where all values of a key must be the same, in this and in every other build.

use std::borrow::Cow;
use std::rc::Rc;

use oauth_credentials::{Credentials, Token};

/// A string type which the library knows nothing about.
#[derive(Clone, Copy)]
struct Own<'a>(&'a [u8]);

impl AsRef<str> for Own<'_> {
    fn as_ref(&self) -> &str {
        std::str::from_utf8(self.0).unwrap()
    }
}

fn own(s: &str) -> Own<'_> {
    Own(s.as_bytes())
}

#[cfg(feature = "has_alloc")]
fn by_default(c: Credentials, t: Token) -> (String, String) {
    (format!("{:?}", parts(c.as_ref())), format!("{:?}", all(t.as_ref())))
}

fn parts<'a>(c: Credentials<&'a str>) -> [&'a str; 2] {
    [c.identifier, c.secret]
}

fn all<'a>(t: Token<&'a str>) -> [&'a str; 4] {
    [t.client.identifier, t.client.secret, t.token.identifier, t.token.secret]
}

fn main() {
    let texts = ["", "a", "secret", "é\u{10FFFF}\"\\", "a&b=c%20+ ", "\n\u{0}", "<hidden>"];
    let mut n = 0;
    for a in texts {
        for b in texts {
            for (c, d) in [("x", "y"), (b, a), (a, a), ("", "")] {
                n += 1;
                let put = |key: &str, entry: &str, v: String| println!("{n} {key}\t{entry}\t{v:?}");
                let (cl, tk) = (Credentials::new(a, b), Credentials::new(c, d));
                let token = Token::new(cl, tk);
                for (entry, t) in [
                    ("new", token),
                    ("from_parts", Token::from_parts(a, b, c, d)),
                    ("from_ref", Token::from_ref(&cl, &tk)),
                    ("as_ref", Token::new(cl.map(own), tk.map(own)).as_ref()),
                    ("from", (&Token::new(cl.map(Box::<str>::from), tk.map(Rc::<str>::from))).into()),
                    ("map", token.map(Cow::Borrowed).as_ref()),
                    ("map_client", token.map_client(own).as_ref()),
                    ("map_token", token.map_token(own).as_ref()),
                    ("parts", Token { client: token.client(), token: token.token() }),
                    ("literal", Token { client: (&cl).into(), token: Credentials { identifier: c, secret: d } }),
                ] {
                    put("all", entry, format!("{:?}", all(t)));
                    put("debug", entry, format!("{:?}", t));
                    put("pretty", entry, format!("{:#?}", t));
                    put("client", entry, format!("{:?}", parts(t.client())));
                    put("token", entry, format!("{:?}", parts(t.token())));
                    put("client debug", entry, format!("{:?}", t.client));
                }
                put("debug", "owned", format!("{:?}", token.map(str::to_owned)));
                #[cfg(feature = "has_alloc")]
                {
                    let (x, y) = by_default(cl.map(Into::into), token.map(Into::into));
                    put("client", "default type", x);
                    put("all", "default type", y);
                }
                #[cfg(feature = "json")]
                {
                    let text = serde_json::to_string(&cl).unwrap();
                    put("json", "borrowed", text.clone());
                    put("json", "owned", serde_json::to_string(&cl.map(str::to_owned)).unwrap());
                    let back: Credentials<String> = serde_json::from_str(&text).unwrap();
                    put("client", "json", format!("{:?}", parts(back.as_ref())));
                }
            }
        }
    }
}
