from run import rf
V='ratel/src/astgen/value.rs'
rf('BUG regex first',[(V,"(0..value.len()).rev()","0..value.len()")])
