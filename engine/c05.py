import pool, vp
vp.main("C05", "abstract interpretation with lockset and critical-section summaries", pool.lock_check)
