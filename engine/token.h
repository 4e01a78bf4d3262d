#pragma once
#include <stingraykit/thread/DummyCancellationToken.h>
// a token that is already cancelled
struct CancelledToken : public virtual stingray::ICancellationToken
{
	bool Sleep(stingray::optional<stingray::TimeDuration>) const override { return false; }
	bool IsCancelled() const override { return true; }
	bool IsTimedOut() const override { return false; }
	stingray::optional<stingray::TimeDuration> GetTimeout() const override { return stingray::null; }
private:
	bool TryRegisterCancellationHandler(stingray::ICancellationHandler&) const override { return false; }
	bool TryUnregisterCancellationHandler() const override { return false; }
	bool UnregisterCancellationHandler() const override { return false; }
};
// a token that never lets a wait block, although it does not look cancelled
struct NonBlockingToken : public virtual stingray::ICancellationToken
{
	mutable unsigned waits;
	NonBlockingToken() : waits(0) { }
	bool Sleep(stingray::optional<stingray::TimeDuration>) const override { return true; }
	bool IsCancelled() const override { return false; }
	bool IsTimedOut() const override { return false; }
	stingray::optional<stingray::TimeDuration> GetTimeout() const override { return stingray::null; }
private:
	bool TryRegisterCancellationHandler(stingray::ICancellationHandler&) const override { ++waits; return false; }
	bool TryUnregisterCancellationHandler() const override { return false; }
	bool UnregisterCancellationHandler() const override { return false; }
};
