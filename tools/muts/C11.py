BAD = [('src/io/parse_cgd_blocks.rs', 'let mut lineno = 0;', 'let mut lineno = 1;'),
 ('src/io/parse_cgd_blocks.rs', '        all_entries.push(current_entry);', '        if current_entry.entry_type != EntryType::Empty { all_entries.push(current_entry); }'),
 ('src/io/parse_cgd_blocks.rs', 'if rest.len() > 0 {', 'if rest.len() > 1 {'),
 ('src/io/parse_cgd_blocks.rs', 'if rest.len() > 0 {', 'if rest.len() > 0 && fields.len() > 0 {'),
 ('src/io/parse_cgd_blocks.rs', 'current_entry.fields = fields[1..].to_vec();', 'current_entry.fields = fields.to_vec();'),
 ('src/io/parse_cgd_blocks.rs', 'current_entry.content = Some(s);\n                    current_entry.add_error(&e);', 'current_entry.content = Some(s);'),
 ('src/io/parse_cgd_blocks.rs',
  '                    current_entry.content = Some(s);\n                    current_entry.add_error(&e);',
  '                    current_entry.add_error(&e);'),
 ('src/io/parse_cgd_blocks.rs',
  '                current_entry.add_error(&format!("{:?}", e));\n',
  '                current_entry.add_error(&format!("{:?}", e));\n                all_entries.push(current_entry);\n                break;\n'),
 ('src/io/parse_cgd_blocks.rs', '                if entry.notes.len() > 0 {\n                    current_block.entries.push(entry);\n                }', ''),
 ('src/io/parse_cgd_blocks.rs',
  '            EntryType::Error => {\n                current_block.entries.push(entry);',
  '            EntryType::Error => {\n                if in_block { current_block.entries.push(entry); }'),
 ('src/io/parse_cgd_blocks.rs',
  '                    } else if !in_block {\n                        entry.entry_type',
  '                    } else if !in_block || entry.fields.len() == 0 {\n                        entry.entry_type'),
 ('src/io/parse_cgd_blocks.rs', '                        current_key = None;\n', ''),
 ('src/io/parse_cgd_blocks.rs', '                        current_key = Some(new_key.clone());\n', ''),
 ('src/io/parse_cgd_blocks.rs', '                        in_block = false;\n', ''),
 ('src/io/parse_cgd_blocks.rs',
  '                        current_block.lineno_end = entry.line_number;\n',
  '                        current_block.lineno_end = entry.line_number - 1;\n'),
 ('src/io/parse_cgd_blocks.rs',
  '                        current_block.lineno_start = entry.line_number;\n                        current_block.block_type = new_key;',
  '                        current_block.block_type = new_key;'),
 ('src/io/parse_cgd_blocks.rs', '                    entry.key = current_key.clone();\n', ''),
 ('src/io/parse_cgd_blocks.rs', '                    entry.key = current_key.clone();\n', '                    entry.key = current_key.take();\n'),
 ('src/io/parse_cgd_blocks.rs', '                    if !in_block {\n                        entry.add_error("data found before block start");\n                    }\n', ''),
 ('src/io/parse_cgd_blocks.rs',
  '                        if entry.fields.len() > 0 {\n                            entry.add_warning("text after \'end\' ignored");\n                        }\n',
  ''),
 ('src/io/parse_cgd_blocks.rs', 'entry.add_warning("text after block type ignored");', 'entry.fields.clear();'),
 ('src/io/parse_cgd_blocks.rs',
  '        if in_block {\n            last_entry.add_error("final block is missing an \'end\' statement");\n        }\n        blocks.push(current_block);',
  '        if in_block {\n            last_entry.add_error("final block is missing an \'end\' statement");\n            blocks.push(current_block);\n        }'),
 ('src/io/parse_cgd_blocks.rs', '        if in_block {\n            last_entry.add_error("final block is missing an \'end\' statement");\n        }\n', ''),
 ('src/io/parse_cgd_blocks.rs', 'current_block.lineno_end = last_entry.line_number;\n        if', 'if'),
 ('src/io/parse_cgd_blocks.rs',
  '        if !in_block {\n            current_block.lineno_start = first_entry.line_number;',
  '        {\n            current_block.lineno_start = first_entry.line_number;'),
 ('src/io/parse_cgd_blocks.rs', 'if new_key == "end" {', 'if new_key == "end" && entry.fields.len() == 0 {'),
 [('src/io/parse_cgd_blocks.rs', 'current_entry.key = Some(s.to_lowercase());', 'current_entry.key = Some(s.clone());'),
  ('src/io/parse_cgd_blocks.rs', 'let new_key = s.to_lowercase();', 'let new_key = s.clone();')],
 ('src/io/parse_cgd_blocks.rs', 'current_entry.entry_type = EntryType::Empty;', 'current_entry.content = None; current_entry.entry_type = EntryType::Empty;')]
GOOD = [('src/io/parse_cgd_blocks.rs', 'let new_key = s.to_lowercase();', 'let new_key = s;'),
 ('src/io/parse_cgd_blocks.rs', 'current_entry.key = Some(s.to_lowercase());', 'current_entry.key = Some(s.clone());'),
 [('src/io/parse_cgd_blocks.rs',
   '    let mut lineno = 0;\n\n    for line in BufReader::new(input).lines() {',
   '    for (lineno, line) in BufReader::new(input).lines().enumerate() {'),
  ('src/io/parse_cgd_blocks.rs', '        lineno += 1;\n', '')],
 ('src/io/parse_cgd_blocks.rs', 'if fields.len() == 0 {', 'if fields.is_empty() {'),
 [('src/io/parse_cgd_blocks.rs', '    fn add_warning(', '    fn has_fields(&self) -> bool {\n        !self.fields.is_empty()\n    }\n\n    fn add_warning('),
  ('src/io/parse_cgd_blocks.rs',
   'if entry.fields.len() > 0 {\n                            entry.add_warning("text after \'end\' ignored");',
   'if entry.has_fields() {\n                            entry.add_warning("text after \'end\' ignored");')],
 ('src/io/parse_cgd_blocks.rs',
  'blocks.push(current_block);\n                        current_block = Block::new();',
  'blocks.push(std::mem::replace(&mut current_block, Block::new()));'),
 [('src/io/parse_cgd_blocks.rs',
   '                    } else if !in_block {\n                        entry.entry_type = EntryType::Begin;',
   '                    } else if in_block {\n'
   '                        current_key = Some(new_key.clone());\n'
   '                        current_block.entries.push(entry);\n'
   '                    } else {\n'
   '                        entry.entry_type = EntryType::Begin;'),
  ('src/io/parse_cgd_blocks.rs',
   '                    } else {\n'
   '                        current_key = Some(new_key.clone());\n'
   '                        current_block.entries.push(entry);\n'
   '                    }\n'
   '                } else {',
   '                    }\n                } else {')],
 ('src/io/parse_cgd_blocks.rs',
  '            EntryType::Begin | EntryType::End => {\n                // should not happen\n            },',
  '            EntryType::Begin | EntryType::End => unreachable!(),'),
 [('src/io/parse_cgd_blocks.rs',
   'fn parse_lines<T: Read>(input: T) -> Vec<Entry> {',
   'fn close(blocks: &mut Vec<Block>, block: Block) -> Block {\n    blocks.push(block);\n    Block::new()\n}\n\n\npub fn parse_lines<T: Read>(input: T) -> Vec<Entry> {'),
  ('src/io/parse_cgd_blocks.rs',
   '                        blocks.push(current_block);\n                        current_block = Block::new();',
   '                        current_block = close(&mut blocks, current_block);'),
  ('src/io/parse_cgd_blocks.rs', 'pub fn close', 'fn close')],
 ('src/io/parse_cgd_blocks.rs',
  '                if entry.notes.len() > 0 {\n                    current_block.entries.push(entry);\n                }',
  '                if entry.notes.is_empty() {\n                    continue;\n                }\n                current_block.entries.push(entry);'),
 ('src/io/parse_cgd_blocks.rs',
  '    if let Some(last_entry) = current_block.entries.last_mut() {\n'
  '        current_block.lineno_end = last_entry.line_number;\n'
  '        if in_block {\n'
  '            last_entry.add_error("final block is missing an \'end\' statement");\n'
  '        }\n'
  '        blocks.push(current_block);\n'
  '    }\n',
  '    if !current_block.entries.is_empty() {\n'
  '        let n = current_block.entries.len();\n'
  '        let last_entry = &mut current_block.entries[n - 1];\n'
  '        current_block.lineno_end = last_entry.line_number;\n'
  '        if in_block {\n'
  '            last_entry.add_error("no \'end\'");\n'
  '        }\n'
  '        blocks.push(current_block);\n'
  '    }\n')]
