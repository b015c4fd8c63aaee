property C11
pkgs ./ratelimiter
native lua limiter ratelimiter.script1
native lua query ratelimiter.script2
