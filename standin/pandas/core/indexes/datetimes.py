class DatetimeIndex: pass
