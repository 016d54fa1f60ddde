F='api/src/state/queue.rs'
NEXT="""            let next = Self::align_up(
                cursor
                    + size_of::<QueueItem>()
                    + (item.callback_discriminator_len as usize)
                    + metas_bytes
                    + (item.args_len as usize),
                align,
            );
"""
GET_OLD="""            if item.used == 1 {
                if current == index {
                    return Some(item);
                }
                current += 1;
            }
"""
FIND_OLD="""            if item.used == 1 {
                if &item.id == id {
                    return Some((current, item));
                }
                current += 1;
            }
"""
GETBODY="""        let mut current = 0usize;

        let mut cursor = Self::items_start();
        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
        let align = core::mem::align_of::<QueueItem>();

        while cursor + size_of::<QueueItem>() <= end {
            let bytes = &self.acc[cursor..cursor + size_of::<QueueItem>()];
            let item = Self::read_item_unaligned(bytes);

            if item.used == 1 {
                if current == index {
                    return Some(item);
                }
                current += 1;
            }

            let metas_bytes = (item.metas_len as usize) * size_of::<CompactAccountMeta>();
            let next = Self::align_up(
                cursor
                    + size_of::<QueueItem>()
                    + (item.callback_discriminator_len as usize)
                    + metas_bytes
                    + (item.args_len as usize),
                align,
            );
            if next <= cursor {
                break;
            }
            cursor = next;
        }

        None
"""
FINDBODY=GETBODY.replace("current == index","&item.id == id").replace("Some(item)","Some((current, item))")
HELP="""    /// Find the nth used item"""
M=[
('same-comment','same',F,"    /// Append a new item to the queue.","    // hello\n    /// Append a new item to the queue."),
('same-noop','same',F,"        self.trim_trailing_holes();\n\n        // Pre","        let _unused = 0usize;\n        self.trim_trailing_holes();\n\n        // Pre"),
('same-helper-next@@all','same',F,[NEXT,"    /// Append a new item to the queue."],["            let next = Self::next_of(cursor, &item, metas_bytes, align);\n","""    #[inline(never)]
    fn next_of(cursor: usize, item: &QueueItem, metas_bytes: usize, align: usize) -> usize {
        let fixed = cursor + size_of::<QueueItem>();
        let var = (item.args_len as usize) + (item.callback_discriminator_len as usize) + metas_bytes;
        Self::align_up(fixed + var, align)
    }
    /// Append a new item to the queue."""]),
('same-get-loop','same',F,GETBODY,GETBODY.replace("while cursor + size_of::<QueueItem>() <= end {","loop {\n            if cursor + size_of::<QueueItem>() > end { return None; }").replace("\n        None\n","\n        None\n")),
('same-get-nth','same',F,GETBODY,"        self.iter_items().nth(index)\n"),
('same-find-enumerate','same',F,FINDBODY,"        self.iter_items().enumerate().find(|(_, it)| &it.id == id)\n"),
('same-find-for','same',F,FINDBODY,"        for (i, it) in self.iter_items().enumerate() {\n            if it.id == *id { return Some((i, it)); }\n        }\n        None\n"),
('same-get-countdown','same',F,GETBODY,GETBODY.replace("let mut current = 0usize;","let mut left = index;").replace("current == index","left == 0").replace("current += 1","left -= 1")),
('same-find-position','same',F,FINDBODY,"        let items: Vec<QueueItem> = self.iter_items().collect();\n        items.iter().position(|it| &it.id == id).map(|i| (i, items[i]))\n"),
('same-get-continue','same',F,GETBODY,GETBODY.replace("if item.used == 1 {\n                if current == index {\n                    return Some(item);\n                }\n                current += 1;\n            }\n","let pending = item.used == 1;\n            if pending && current == index {\n                return Some(item);\n            }\n            if pending { current += 1; }\n")),
('same-rm-find','same',F,"                    // Logically remove\n                    item.used = 0;\n                    self.header.item_count = self.header.item_count.saturating_sub(1);\n                    // Write back modified item using unaligned write\n                    Self::write_item_unaligned(bytes, &item);\n","                    // Logically remove\n                    item.used = 0;\n                    Self::write_item_unaligned(bytes, &item);\n                    let n = self.header.item_count;\n                    self.header.item_count = n.saturating_sub(1);\n"),
('same-rm-nowastail','same',F,"let was_tail = next == self.header.cursor as usize;","let was_tail = next >= self.header.cursor as usize;"),
('same-rm-alwaystrim','same',F,"let was_tail = next == self.header.cursor as usize;","let was_tail = next > 0;"),
('same-add-reorder','same',F,"        let args_off = self.write_bytes(args)?;\n        let args_len = args_len_usize as u16;\n","        let args_len = args_len_usize as u16;\n        let args_off = self.write_bytes(args)?;\n"),
('same-add-limits','same',F,"        if metas.len() > 20 || args.len() > 512 {\n            return Err(ProgramError::from(EphemeralVrfError::ArgumentSizeTooLarge));\n        }\n","        let too_many = metas.len() > 20;\n        let too_long = args.len() > 512;\n        if too_many | too_long {\n            return Err(EphemeralVrfError::ArgumentSizeTooLarge.into());\n        }\n"),
('same-add-plain','same',F,"        let total_needed = item_size\n            .saturating_add(disc_len_usize)\n            .saturating_add(metas_bytes_len)\n            .saturating_add(args_len_usize);\n","        let total_needed = item_size + disc_len_usize + metas_bytes_len + args_len_usize;\n"),
('same-add-literal','same',F,"        item.used = 1;\n\n        // Write","        let item = QueueItem { used: 1, ..item };\n        // Write"),
('same-trim-rename','same',F,"        let new_cursor = last_used_end_aligned;\n        if (new_cursor as u32) < self.header.cursor {\n            self.header.cursor = new_cursor as u32;\n        }","        self.header.cursor = core::cmp::min(self.header.cursor, last_used_end_aligned as u32);"),
('same-iter-filter','same',F,"            if item.used == 1 {\n                out.push(item);\n            }\n","            if item.used != 1 {\n                // skip\n            } else {\n                out.push(item);\n            }\n"),
('same-acc-get','same',F,GETBODY,GETBODY.replace("let bytes = &self.acc[cursor..cursor + size_of::<QueueItem>()];","let bytes = match self.acc.get(cursor..cursor + size_of::<QueueItem>()) { Some(b) => b, None => break };")),
# bugs
('bug-get-used-ne0','bug',F,GETBODY,GETBODY.replace("item.used == 1","item.used != 2")),
('bug-get-end','bug',F,GETBODY,GETBODY.replace("core::cmp::min(self.acc.len(), self.header.cursor as usize)","self.acc.len()")),
('bug-find-pos','bug',F,FINDBODY,FINDBODY.replace("            if item.used == 1 {\n                if &item.id == id {\n                    return Some((current, item));\n                }\n                current += 1;\n            }\n","            if item.used == 1 && &item.id == id {\n                return Some((current, item));\n            }\n            current += 1;\n")),
('bug-find-unused','bug',F,FINDBODY,FINDBODY.replace("            if item.used == 1 {\n                if &item.id == id {\n                    return Some((current, item));\n                }\n                current += 1;\n            }\n","            if &item.id == id {\n                return Some((current, item));\n            }\n            if item.used == 1 {\n                current += 1;\n            }\n")),
('bug-add-limit','bug',F,"metas.len() > 20 ","metas.len() > 255 "),
('bug-add-limit2','bug',F,"args.len() > 512","args.len() > 1 << 16"),
('bug-add-needs','bug',F,"            .saturating_add(metas_bytes_len)\n",""),
('bug-add-fit','bug',F,"if aligned.saturating_add(total_needed) > self.acc.len()","if (self.header.cursor as usize).saturating_add(total_needed) > self.acc.len()"),
('bug-trim-off','bug',F,"            if item.used == 1 {\n                last_used_end_aligned","            if item.used == 1 && item.priority_request < 2 {\n                last_used_end_aligned"),
('bug-rm-trim','bug',F,"                    if was_tail {\n                        self.trim_trailing_holes();\n","                    if was_tail {\n                        self.header.cursor = cursor as u32;\n                    } else if self.header.item_count == 0 {\n                        self.header.cursor = cursor as u32;\n"),
('bug-count','bug',F,"self.header.item_count = self.header.item_count.saturating_sub(1);","if was_tail { self.header.item_count = self.header.item_count.saturating_sub(1); }"),
('bug-prio','bug',F,"        item.used = 1;\n\n        // Write","        item.used = 1;\n        item.priority_request = (item.priority_request == 2) as u8;\n        // Write"),
('bug-lenu8','bug',F,"let args_len = args_len_usize as u16;","let args_len = args_len_usize as u8 as u16;"),
]
