//! Open arbitrary bytes and use everything that can be reached.

use crate::session::new_mem;
use crate::session::Backend;
use crate::types::{Sample, WRITE_TYPES};
use crate::with_type;
use tedium::{ChannelPath, PropertyPath};

/// "ok" when it opened, "err" when it was refused. Panics are the caller's to see.
pub fn everything(data: &[u8], mut alive: impl FnMut()) -> &'static str {
    let mem = new_mem(0);
    mem.set(data.to_vec());
    let Ok(mut file) = mem.open() else { return "err" };
    let groups: Vec<String> = file.list_groups().map(|g| g.to_string()).collect();
    let mut all: Vec<ChannelPath> = vec![];
    let _ = file.read_all_properties(&PropertyPath::file()).map(|p| p.count());
    for g in groups.iter().take(50) {
        for p in [PropertyPath::group(g)].into_iter().chain(PropertyPath::try_from(format!("/'{g}'").as_str())) {
            let _ = file.read_all_properties(&p).map(|p| p.count());
            let chans: Vec<ChannelPath> = file.list_channels_in_group(&p).collect();
            for c in chans {
                if !all.contains(&c) && all.len() < 50 {
                    all.push(c);
                }
            }
        }
    }
    let _: Vec<ChannelPath> = file.list_channels_in_group(&PropertyPath::file()).collect();
    for c in &all {
        let _ = (c.group_name(), c.channel_name());
        let _ = file.read_property(c.as_ref(), "x");
        let len = file.channel_length(c).unwrap_or(0);
        for t in WRITE_TYPES {
            with_type!(t, T => {
                let mut buf = vec![T::dec(&[0u8; 16][..crate::types::size(T::NAME)]); 600];
                let n = buf.len().min(len.saturating_add(2).min(600) as usize);
                for from in [0, 1, len / 2, len.saturating_sub(1), len, u64::MAX] {
                    let _ = file.read_channel_from(c, from, &mut buf[..n]);
                }
            });
        }
        let mut s = vec![String::new(); 3];
        let _ = file.read_channel(c, &mut s);
        alive();
    }
    if all.len() > 1 {
        for t in WRITE_TYPES {
            with_type!(t, T => {
                let v = T::dec(&[0u8; 16][..crate::types::size(T::NAME)]);
                for from in [0u64, 1, 5] {
                    let mut bufs: Vec<Vec<T>> =
                        (0..all.len()).map(|i| vec![v.clone(); 3 + 5 * (i % 3)]).collect();
                    let mut outs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                    let _ = file.read_channels_from(&all, from, &mut outs);
                }
            });
        }
    }
    "ok"
}
