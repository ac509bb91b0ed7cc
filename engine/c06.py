import pool, vp
vp.main("C06", "abstract interpretation with lockset and critical-section summaries", pool.protocol_check)
