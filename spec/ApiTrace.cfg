SPECIFICATION ApiSpec
CHECK_DEADLOCK FALSE
