use monitor_common::*;

/// Independent reader of the printed form
struct Reader<'a> {
    chars: std::iter::Peekable<std::str::Chars<'a>>,
}
impl Reader<'_> {
    fn expect(&mut self, c: char) -> CaseResult {
        match self.chars.next() {
            Some(d) if c == d => Ok(()),
            other => Err(format!("expected {:?}, found {:?}", c, other)),
        }
    }
    fn word(&mut self) -> String {
        let mut out = String::new();
        while let Some(c) = self.chars.peek() {
            if *c == ' ' || *c == ')' || *c == '(' || *c == '"' {
                break;
            }
            out.push(*c);
            self.chars.next();
        }
        out
    }
    fn row(&mut self) -> Result<MRow, String> {
        self.expect('(')?;
        let word = self.word();
        ensure!(word == "row", "expected a row, found {:?}", word);
        let mut out = vec![];
        loop {
            match self.chars.next() {
                Some(')') => return Ok(out),
                Some(' ') => out.push(self.node()?),
                other => return Err(format!("unexpected {:?} in a row", other)),
            }
        }
    }
    fn node(&mut self) -> Result<MNode, String> {
        if self.chars.peek() == Some(&'"') {
            self.chars.next();
            let mut out = String::new();
            loop {
                match self.chars.next() {
                    None => return Err("unterminated symbol".into()),
                    Some('"') => return Ok(sym(out)),
                    Some('\\') => match self.chars.next() {
                        Some(c @ ('"' | '\\')) => out.push(c),
                        other => return Err(format!("unknown escape {:?}", other)),
                    },
                    Some(c) => out.push(c),
                }
            }
        }
        self.expect('(')?;
        let kind = match self.word().as_str() {
            "frac" => Kind::Frac,
            "root" => Kind::Root,
            "sup" => Kind::Sup,
            "sub" => Kind::Sub,
            "table" => Kind::Table,
            other => return Err(format!("unknown container {:?}", other)),
        };
        self.expect(' ')?;
        let size = self.word();
        let (w, h) = size.split_once('x').ok_or("no size")?;
        let (w, h): (usize, usize) = (w.parse().map_err(|_| "bad width")?, h.parse().map_err(|_| "bad height")?);
        let mut cells = vec![];
        loop {
            match self.chars.next() {
                Some(')') => break,
                Some(' ') => cells.push(self.row()?),
                other => return Err(format!("unexpected {:?} in a container", other)),
            }
        }
        ensure!(cells.len() == w * h, "{} cells in a {}x{} grid", cells.len(), w, h);
        Ok(cont(kind, w, cells))
    }
}

pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "random formula over symbols made of quotes, backslashes, spaces, parentheses, keywords, control and non-ASCII characters and the empty string; the printed text is read back by an independent reader and compared, and each formula is compared with small mutations of itself. Distinct: different formulas.",
        quick: 60_000,
        thorough: 3_000_000,
        case: |rng, size, mon| {
            let mut shape = gen::Shape::sized(size);
            shape.odd = 10;
            let model = gen::row(rng, &shape, &mut gen::nasty_symbol);
            mon.note(|| format!("formula {}", show(&model)));
            let repo = row_to_repo(&model);
            let text = repo.to_string();
            mon.note(|| format!("printed {}", text));
            let mut reader = Reader { chars: text.chars().peekable() };
            let again = reader.row().map_err(|e| format!("the printed form cannot be read: {}", e))?;
            ensure!(reader.chars.next().is_none(), "the printed form has text behind the formula");
            ensure!(again == model, "the printed form reads back as {}", show(&again));
            mon.distinct(&text);
            mon.add("symbols printed", all_symbols(&model).len());
            mon.sample(|| text.clone());
            for node in &repo.values {
                let text = node.to_string();
                let mut reader = Reader { chars: text.chars().peekable() };
                let again = reader.node().map_err(|e| format!("the printed element cannot be read: {}", e))?;
                ensure!(again == node_from_repo(node) && reader.chars.next().is_none(), "printed element {} reads back as {:?}", text, again);
            }
            // A mutation prints differently, unless it is the same formula
            let rows = all_rows(&model);
            for _ in 0..4 {
                let mut other = model.clone();
                let path = rng.pick(&rows).clone();
                let row = row_at_mut(&mut other, &path).unwrap();
                match rng.below(4) {
                    0 => row.push(sym(gen::nasty_symbol(rng))),
                    1 => { row.pop(); }
                    2 if row.len() >= 2 => { let i = rng.below(row.len() - 1); row.swap(i, i + 1); }
                    2 => {}
                    _ => {
                        for node in row.iter_mut() {
                            if let Body::Sym(s) = &mut node.body {
                                let extra = *rng.pick(&["\\", "\"", " ", ")"]);
                                if rng.bool() { s.push_str(extra) } else { s.insert_str(0, extra) }
                                break;
                            }
                        }
                    }
                }
                let other_text = row_to_repo(&other).to_string();
                ensure!((other_text == text) == (other == model), "{} and {} print the same", show(&model), show(&other));
                mon.count("mutations compared");
            }
            Ok(())
        },
        probe: None,
        assumptions: &[],
    }
}
