import re
F='api/src/state/queue.rs'
SRC=open('/repo/'+F).read()
def fn(name, start=None):
    m=re.search(r'^    (pub )?fn %s\b.*?^    \}\n'%name,SRC,re.S|re.M)
    return m.group(0)
def last(pat): return SRC
ITER=fn('iter_items'); GET=fn('get_item_by_index'); FIND=fn('find_item_by_id'); RM=fn('remove_item'); ADD=fn('add_item'); TRIM=fn('trim_trailing_holes'); LOAD=fn('load'); WB=fn('write_bytes'); AL=fn('align_up')
RD=fn('read_item_unaligned'); WR=fn('write_item_unaligned'); DISC=fn('callback_discriminator'); MET=fn('account_metas'); ARG=fn('callback_args')
HEADER="""    /// Position of the entry at `cursor` and of the one after it
    fn entry_at(&self, cursor: usize) -> Option<(QueueItem, usize)> {
        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
        if cursor + size_of::<QueueItem>() > end {
            return None;
        }
        let item = Self::read_item_unaligned(&self.acc[cursor..cursor + size_of::<QueueItem>()]);
        let len = size_of::<QueueItem>()
            + item.callback_discriminator_len as usize
            + item.metas_len as usize * size_of::<CompactAccountMeta>()
            + item.args_len as usize;
        Some((item, Self::align_up(cursor + len, core::mem::align_of::<QueueItem>())))
    }
"""
GET2="""    pub fn get_item_by_index(&self, index: usize) -> Option<QueueItem> {
        let mut seen = 0usize;
        let mut cursor = Self::items_start();
        while let Some((item, next)) = self.entry_at(cursor) {
            if item.used == 1 {
                if seen == index {
                    return Some(item);
                }
                seen += 1;
            }
            if next <= cursor {
                return None;
            }
            cursor = next;
        }
        None
    }
"""
FIND2=GET2.replace("get_item_by_index(&self, index: usize) -> Option<QueueItem>","find_item_by_id(&self, id: &[u8; 32]) -> Option<(usize, QueueItem)>").replace("seen == index","item.id == *id").replace("return Some(item);","return Some((seen, item));")
ITER2="""    pub fn iter_items(&self) -> impl Iterator<Item = QueueItem> + '_ {
        let mut cursor = Self::items_start();
        let mut out = Vec::new();
        while let Some((item, next)) = self.entry_at(cursor) {
            if item.used == 1 {
                out.push(item);
            }
            if next <= cursor {
                break;
            }
            cursor = next;
        }
        out.into_iter()
    }
"""
TRIM2="""    fn trim_trailing_holes(&mut self) {
        let mut cursor = Self::items_start();
        let mut live_end = cursor;
        while let Some((item, next)) = self.entry_at(cursor) {
            if item.used == 1 {
                live_end = next;
            }
            if next <= cursor {
                break;
            }
            cursor = next;
        }
        self.header.cursor = self.header.cursor.min(live_end as u32);
    }
"""
RM2="""    pub fn remove_item(&mut self, index: usize) -> Result<QueueItem, ProgramError> {
        let mut seen = 0usize;
        let mut cursor = Self::items_start();
        while let Some((mut item, next)) = self.entry_at(cursor) {
            if item.used == 1 {
                if seen == index {
                    item.used = 0;
                    Self::write_item_unaligned(
                        &mut self.acc[cursor..cursor + size_of::<QueueItem>()],
                        &item,
                    );
                    self.header.item_count = self.header.item_count.saturating_sub(1);
                    if next == self.header.cursor as usize {
                        self.trim_trailing_holes();
                    }
                    return Ok(item);
                }
                seen += 1;
            }
            if next <= cursor {
                break;
            }
            cursor = next;
        }
        Err(EphemeralVrfError::InvalidQueueIndex.into())
    }
"""
M=[
('same-entry-at-get','same',F,GET,HEADER+GET2),
('same-entry-at-all','same',F,[ITER,GET,RM,FIND,TRIM],[HEADER+ITER2,GET2,RM2,FIND2,TRIM2]),
('same-loop-break','same',F,GET,GET.replace("        while cursor + size_of::<QueueItem>() <= end {\n","        loop {\n            if cursor + size_of::<QueueItem>() > end {\n                break;\n            }\n")),
('same-end-inline','same',F,FIND,FIND.replace("        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);\n","").replace("<= end {","<= self.acc.len().min(self.header.cursor as usize) {")),
('same-two-bounds','same',F,GET,GET.replace("        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);\n","        let end = self.header.cursor as usize;\n").replace("<= end {","<= end\n            && cursor + size_of::<QueueItem>() <= self.acc.len()\n        {")),
('same-align-next-multiple','same',F,AL,"    fn align_up(x: usize, align: usize) -> usize {\n        x.next_multiple_of(align)\n    }\n"),
('same-align-divmul','same',F,AL,"    fn align_up(x: usize, align: usize) -> usize {\n        (x + align - 1) / align * align\n    }\n"),
('same-align-rem','same',F,AL,"    fn align_up(x: usize, align: usize) -> usize {\n        let rem = x % align;\n        if rem == 0 {\n            x\n        } else {\n            x + (align - rem)\n        }\n    }\n"),
('same-read-bytemuck','same',F,RD,"    fn read_item_unaligned(bytes: &[u8]) -> QueueItem {\n        bytemuck::pod_read_unaligned(bytes)\n    }\n"),
('same-write-bytemuck','same',F,WR,"    fn write_item_unaligned(dst: &mut [u8], item: &QueueItem) {\n        dst.copy_from_slice(bytemuck::bytes_of(item));\n    }\n"),
('same-metas-cast','same',F,"""        let metas_bytes =
            unsafe { core::slice::from_raw_parts(metas.as_ptr() as *const u8, metas_bytes_len) };
""","        let metas_bytes: &[u8] = bytemuck::cast_slice(metas);\n"),
('same-account-metas-cast','same',F,MET,MET.replace("unsafe { core::slice::from_raw_parts(bytes.as_ptr() as *const CompactAccountMeta, count) }","bytemuck::cast_slice(bytes)")),
('same-args-get','same',F,ARG,"""    pub fn callback_args<'a>(&self, acc: &'a [u8]) -> &'a [u8] {
        let start = self.args_offset as usize;
        acc.get(start..start + self.args_len as usize)
            .unwrap_or(&[])
    }
"""),
('same-args-default','same',F,ARG,"""    pub fn callback_args<'a>(&self, acc: &'a [u8]) -> &'a [u8] {
        let start = self.args_offset as usize;
        acc.get(start..start + self.args_len as usize)
            .unwrap_or_default()
    }
"""),
('same-slice-helper','same',F,[DISC,ARG],["""    fn slice<'a>(acc: &'a [u8], offset: u32, len: usize) -> &'a [u8] {
        let start = offset as usize;
        match acc.get(start..start + len) {
            Some(bytes) => bytes,
            None => &[],
        }
    }

    pub fn callback_discriminator<'a>(&self, acc: &'a [u8]) -> &'a [u8] {
        Self::slice(
            acc,
            self.callback_discriminator_offset,
            self.callback_discriminator_len as usize,
        )
    }
""","""    pub fn callback_args<'a>(&self, acc: &'a [u8]) -> &'a [u8] {
        Self::slice(acc, self.args_offset, self.args_len as usize)
    }
"""]),
('same-iter-fromfn','same',F,ITER,"""    pub fn iter_items(&self) -> impl Iterator<Item = QueueItem> + '_ {
        let mut cursor = Self::items_start();
        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
        let align = core::mem::align_of::<QueueItem>();

        std::iter::from_fn(move || {
            while cursor + size_of::<QueueItem>() <= end {
                let bytes = &self.acc[cursor..cursor + size_of::<QueueItem>()];
                let item = Self::read_item_unaligned(bytes);
                let metas_bytes = (item.metas_len as usize) * size_of::<CompactAccountMeta>();
                cursor = Self::align_up(
                    cursor
                        + size_of::<QueueItem>()
                        + (item.callback_discriminator_len as usize)
                        + metas_bytes
                        + (item.args_len as usize),
                    align,
                );
                if item.used == 1 {
                    return Some(item);
                }
            }
            None
        })
    }
"""),
('same-write-checked','same',F,WB,"""    fn write_bytes(&mut self, bytes: &[u8]) -> Result<u32, ProgramError> {
        let start = self.header.cursor as usize;
        let end = start + bytes.len();
        self.acc
            .get_mut(start..end)
            .ok_or(ProgramError::AccountDataTooSmall)?
            .copy_from_slice(bytes);
        self.header.cursor = end as u32;
        Ok(start as u32)
    }
"""),
('same-load-match','same',F,LOAD,"""    pub fn load(acc: &'a mut [u8]) -> Result<Self, ProgramError> {
        let size = size_of::<Queue>();
        if acc.len() < size || bytemuck::try_from_bytes::<Queue>(&acc[..size]).is_err() {
            return Err(ProgramError::InvalidAccountData);
        }
        let header: &mut Queue = unsafe { &mut *(acc.as_mut_ptr() as *mut Queue) };
        if header.cursor == 0 {
            header.cursor = Self::items_start() as u32;
        }
        Ok(Self { header, acc })
    }
"""),
('same-add-limits-first','same',F,ADD,ADD.replace("        if metas.len() > 20 || args.len() > 512 {\n            return Err(ProgramError::from(EphemeralVrfError::ArgumentSizeTooLarge));\n        }\n","        Self::check_sizes(metas, args)?;\n")+"""
    fn check_sizes(metas: &[CompactAccountMeta], args: &[u8]) -> Result<(), ProgramError> {
        const MAX_METAS: usize = 20;
        const MAX_ARGS: usize = 512;
        let ok = metas.len() <= MAX_METAS && args.len() <= MAX_ARGS;
        ok.then_some(())
            .ok_or_else(|| EphemeralVrfError::ArgumentSizeTooLarge.into())
    }
"""),
('same-add-checked','same',F,ADD,ADD.replace("""        if aligned.saturating_add(total_needed) > self.acc.len() {
            return Err(ProgramError::AccountDataTooSmall);
        }
""","""        match aligned.checked_add(total_needed) {
            Some(end) if end <= self.acc.len() => {}
            _ => return Err(ProgramError::AccountDataTooSmall),
        }
""")),
('same-add-align-helper','same',F,ADD,ADD.replace("""        if aligned != self.header.cursor as usize {
            let start = self.header.cursor as usize;
            let end = aligned;
            // Safe due to preflight check above
            self.acc[start..end].fill(0);
            self.header.cursor = end as u32;
        }
""","""        self.pad_to(aligned);
""")+"""
    fn pad_to(&mut self, end: usize) {
        let start = self.header.cursor as usize;
        for byte in self.acc[start..end].iter_mut() {
            *byte = 0;
        }
        self.header.cursor = end as u32;
    }
"""),
('same-add-sum','same',F,ADD,ADD.replace("""        let total_needed = item_size
            .saturating_add(disc_len_usize)
            .saturating_add(metas_bytes_len)
            .saturating_add(args_len_usize);
""","""        let total_needed: usize = [item_size, disc_len_usize, metas_bytes_len, args_len_usize]
            .iter()
            .sum();
""")),
('same-add-struct','same',F,ADD,ADD.replace("""        let mut item = *base_item;
        item.callback_discriminator_offset = disc_off;
        item.callback_discriminator_len = disc_len;
        item.metas_offset = metas_off;
        item.metas_len = metas_len;
        item.args_offset = args_off;
        item.args_len = args_len;
        item.used = 1;
""","""        let item = QueueItem {
            callback_discriminator_offset: disc_off,
            callback_discriminator_len: disc_len,
            metas_offset: metas_off,
            metas_len,
            args_offset: args_off,
            args_len,
            used: 1,
            ..*base_item
        };
""")),
('same-add-offsets','same',F,ADD,ADD.replace("""        let disc_off = self.write_bytes(discriminator)?;
""","""        let disc_off = self.header.cursor;
        self.write_bytes(discriminator)?;
""")),
('same-rm-locate','same',F,RM,"""    fn locate(&self, index: usize) -> Option<usize> {
        let mut current = 0usize;
        let mut cursor = Self::items_start();
        let end = core::cmp::min(self.acc.len(), self.header.cursor as usize);
        while cursor + size_of::<QueueItem>() <= end {
            let item =
                Self::read_item_unaligned(&self.acc[cursor..cursor + size_of::<QueueItem>()]);
            if item.used == 1 {
                if current == index {
                    return Some(cursor);
                }
                current += 1;
            }
            let metas_bytes = (item.metas_len as usize) * size_of::<CompactAccountMeta>();
            let next = Self::align_up(
                cursor
                    + size_of::<QueueItem>()
                    + (item.callback_discriminator_len as usize)
                    + metas_bytes
                    + (item.args_len as usize),
                core::mem::align_of::<QueueItem>(),
            );
            if next <= cursor {
                break;
            }
            cursor = next;
        }
        None
    }

    pub fn remove_item(&mut self, index: usize) -> Result<QueueItem, ProgramError> {
        let cursor = self
            .locate(index)
            .ok_or(EphemeralVrfError::InvalidQueueIndex)?;
        let bytes = &mut self.acc[cursor..cursor + size_of::<QueueItem>()];
        let mut item = Self::read_item_unaligned(bytes);
        item.used = 0;
        Self::write_item_unaligned(bytes, &item);
        self.header.item_count = self.header.item_count.saturating_sub(1);
        self.trim_trailing_holes();
        Ok(item)
    }
"""),
('same-rm-usedbyte','same',F,RM,RM.replace("""                    item.used = 0;
                    self.header""","""                    item.used -= 1;
                    self.header""")),
('same-header-try-from','same',F,"""        let header_size = size_of::<Queue>();
        if data.len() < 8 + header_size {
            return Err(ProgramError::InvalidAccountData);
        }
        // Validate discriminator
        if AccountDiscriminator::Queue.to_bytes() != data[..8] {
            return Err(ProgramError::InvalidAccountData);
        }
        // SAFETY""","""        let header_size = size_of::<Queue>();
        let tagged = data
            .get(..8)
            .is_some_and(|tag| tag == AccountDiscriminator::Queue.to_bytes());
        if !tagged || data.len() < 8 + header_size {
            return Err(ProgramError::InvalidAccountData);
        }
        // SAFETY"""),
('same-len-delegate','same',F,"""    pub fn is_empty(&self) -> bool {
        self.header.item_count == 0
    }

    pub fn len(&self) -> usize {
        self.header.item_count as usize
    }
""","""    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    pub fn len(&self) -> usize {
        self.header.len()
    }
"""),
('same-trim-max','same',F,TRIM,TRIM.replace("""            if item.used == 1 {
                last_used_end_aligned = next;
            }
""","""            if item.used != 1 {
                if next <= cursor {
                    break;
                }
                cursor = next;
                continue;
            }
            last_used_end_aligned = next;
""")),
('same-get-filter-skip','same',F,GET,"""    pub fn get_item_by_index(&self, index: usize) -> Option<QueueItem> {
        self.iter_items().skip(index).next()
    }
"""),
('same-get-collect','same',F,GET,"""    pub fn get_item_by_index(&self, index: usize) -> Option<QueueItem> {
        let items: Vec<QueueItem> = self.iter_items().collect();
        items.get(index).copied()
    }
"""),
('same-match-used','same',F,FIND,FIND.replace("""            if item.used == 1 {
                if &item.id == id {
                    return Some((current, item));
                }
                current += 1;
            }
""","""            match (item.used, &item.id == id) {
                (1, true) => return Some((current, item)),
                (1, false) => current += 1,
                _ => {}
            }
""")),
('same-count-cast','same',F,FIND,FIND.replace("let mut current = 0usize;","let mut current = 0u32;").replace("Some((current, item))","Some((current as usize, item))")),
]
