#pragma once
#include <QObject>
#include <QString>

// metaobject: signal_moc.h (moc)
struct Sig final : QObject
{
    Q_OBJECT
Q_SIGNALS:
    void one(int v);
    void none();
    void many(int v, double d, const QString& s);
};
